  {33.54, 7.23, -6.17, 0.49}, {47.57, 16.76, -5.37, 0.59}, {35.91, 9.95, -5.94, 0.50}, {74.46, 27.63, -5.06, 0.56}, {31.42, 3.23, -7.48, 0.86},
  {35.02, 5.03, -7.07, 0.97}, {34.22, 5.38, -6.92, 0.75}, {56.13, 13.08, -6.14, 0.71}, {26.61, 1.79, -11.56, 0.75}, {26.82, 1.74, -11.21, 1.05},
  {32.78, 4.01, -9.18, 0.89}, {48.19, 9.20, -7.81, 0.41}, {54.49, 9.74, -5.57, 0.36}, {83.72, 21.88, -4.72, 0.41}, {66.91, 25.22, -5.30, 0.39},
  {139.47, 52.86, -4.30, 0.38}, {48.33, 5.19, -6.45, 0.46}, {61.62, 9.19, -5.78, 0.52}, {57.11, 12.48, -6.05, 0.45}, {97.49, 25.80, -5.06, 0.48},
  {37.45, 4.83, -8.12, 0.89}, {46.11, 8.53, -7.36, 0.89}, {51.98, 7.98, -6.96, 0.66}, {87.52, 19.66, -6.02, 0.60}, {31.32, 1.37, -11.32, 1.08},
  {31.39, 1.36, -10.95, 1.27}, {50.77, 6.66, -7.98, 0.61}, {81.71, 15.99, -7.06, 0.52}, {78.85, 12.31, -5.26, 0.29}, {134.18, 31.01, -4.42, 0.33},
  {117.45, 53.31, -4.91, 0.34}, {176.74, 44.87, -3.98, 0.30}, {64.30, 6.78, -6.04, 0.36}, {90.38, 13.72, -5.34, 0.41}, {89.69, 24.18, -5.58, 0.36},
  {124.54, 22.94, -4.65, 0.36}, {42.15, 5.00, -8.14, 0.85}, {52.70, 10.87, -7.51, 0.85}, {75.43, 10.48, -6.57, 0.51}, {115.00, 17.34, -5.88, 0.53},
  {36.89, 1.24, -10.87, 1.53}, {36.79, 1.11, -10.83, 1.28}, {75.32, 9.89, -7.01, 0.54}, {112.55, 15.63, -6.45, 0.52}, {105.12, 14.26, -5.09, 0.24},
  {192.66, 38.46, -4.25, 0.27}, {196.11, 101.46, -4.63, 0.32}, {247.26, 61.46, -3.80, 0.27}, {79.44, 8.49, -5.77, 0.31}, {121.99, 18.17, -5.09, 0.34},
  {133.34, 40.36, -5.28, 0.31}, {167.35, 30.75, -4.36, 0.29}, {48.33, 4.85, -7.78, 0.82}, {59.28, 11.59, -7.48, 0.80}, {105.80, 13.56, -6.21, 0.44},
  {153.87, 22.32, -5.56, 0.53}, {43.73, 1.31, -9.55, 2.00}, {43.15, 1.06, -10.52, 1.32}, {105.99, 13.01, -6.42, 0.47}, {153.60, 21.16, -6.03, 0.61},
  {132.75, 16.33, -4.98, 0.21}, {256.55, 45.30, -4.15, 0.24}, {304.06, 162.04, -4.38, 0.33}, {326.03, 83.33, -3.66, 0.24}, {94.20, 10.12, -5.61, 0.28},
  {155.76, 23.80, -4.91, 0.31}, {194.20, 59.62, -5.03, 0.30}, {214.28, 38.26, -4.19, 0.27}, {56.27, 4.84, -7.31, 0.55}, {67.16, 11.96, -7.38, 0.80},
  {142.12, 16.66, -5.94, 0.38}, {203.27, 28.11, -5.31, 0.50}, {51.75, 1.08, -7.66, 0.82}, {50.53, 1.10, -9.97, 1.40}, {144.05, 16.64, -6.07, 0.41},
  {203.52, 27.27, -5.66, 0.62}, {36.53, 10.49, -5.61, 0.63}, {61.11, 21.63, -4.63, 0.66}, {29.82, 9.92, -7.92, 2.98}, {46.90, 22.37, -7.08, 3.25},
  {41.42, 17.27, -5.34, 0.63}, {36.23, 14.67, -6.40, 1.99}, {104.44, 43.05, -4.28, 0.62}, {80.49, 35.45, -6.17, 2.99}, {29.44, 4.79, -6.91, 0.81},
  {36.49, 8.05, -6.20, 0.88}, {26.71, 4.39, -8.69, 2.38}, {32.18, 7.85, -8.01, 2.55}, {33.25, 8.62, -6.47, 0.80}, {30.49, 6.97, -7.14, 1.55},
  {62.74, 18.16, -5.44, 0.77}, {52.61, 15.21, -6.82, 2.45}, {22.69, 1.10, -11.58, 0.70}, {22.90, 1.08, -11.15, 1.08}, {22.39, 0.74, -11.69, 0.58},
  {22.56, 0.73, -11.36, 0.90}, {30.74, 5.92, -9.02, 0.88}, {29.12, 5.07, -9.23, 1.01}, {49.20, 12.25, -7.88, 0.50}, {42.80, 9.65, -8.51, 1.51},
  {63.62, 13.85, -5.01, 0.45}, {108.61, 31.17, -4.14, 0.47}, {51.97, 15.02, -5.69, 1.77}, {85.19, 35.36, -4.70, 1.68}, {90.63, 49.46, -4.63, 0.53},
  {76.51, 38.82, -4.97, 1.01}, {193.19, 86.80, -3.67, 0.46}, {145.41, 69.61, -4.10, 1.10}, {45.34, 6.06, -6.10, 0.52}, {61.87, 11.71, -5.28, 0.59},
  {41.27, 6.04, -6.98, 1.89}, {53.34, 12.06, -6.05, 1.85}, {61.54, 20.79, -5.58, 0.54}, {54.62, 15.70, -5.94, 1.08}, {106.98, 32.77, -4.55, 0.53},
  {86.81, 27.20, -5.10, 1.22}, {35.72, 4.46, -7.87, 0.88}, {43.50, 7.47, -7.15, 0.85}, {34.25, 4.11, -8.57, 1.53}, {40.23, 7.15, -7.88, 1.61},
  {53.74, 12.15, -6.70, 0.67}, {50.39, 10.53, -6.95, 0.91}, {91.39, 25.65, -5.81, 0.65}, {76.35, 21.28, -6.18, 0.97}, {28.81, 1.23, -11.46, 0.84},
  {28.91, 1.14, -11.06, 1.13}, {28.44, 0.70, -11.57, 0.71}, {28.61, 0.73, -11.23, 1.00}, {50.26, 9.73, -7.91, 0.62}, {48.22, 8.80, -8.03, 0.74},
  {86.09, 22.96, -6.89, 0.58}, {72.89, 19.32, -7.03, 0.72}, {92.05, 16.31, -4.70, 0.36}, {166.59, 40.67, -3.85, 0.37}, {74.57, 18.95, -5.01, 0.96},
  {132.64, 47.40, -4.07, 0.85}, {165.39, 102.07, -4.17, 0.49}, {140.36, 79.35, -4.36, 0.65}, {225.10, 71.57, -3.34, 0.39}, {175.90, 60.72, -3.56, 0.61},
  {60.97, 7.59, -5.73, 0.42}, {90.41, 16.18, -4.89, 0.48}, {55.49, 7.76, -6.10, 1.13}, {77.68, 17.39, -5.22, 1.11}, {104.75, 40.56, -5.07, 0.47},
  {90.84, 31.78, -5.26, 0.68}, {135.89, 30.32, -4.20, 0.42}, {113.01, 25.33, -4.46, 0.64}, {39.88, 4.38, -8.09, 0.88}, {48.61, 8.88, -7.44, 0.82},
  {38.89, 3.92, -8.34, 1.05}, {46.09, 8.51, -7.63, 1.07}, {77.92, 15.86, -6.44, 0.52}, {74.60, 14.32, -6.52, 0.60}, {116.72, 22.98, -5.78, 0.53},
  {99.21, 18.93, -5.82, 0.61}, {34.25, 1.36, -11.03, 1.40}, {34.20, 1.17, -10.85, 1.20}, {33.83, 0.75, -11.36, 1.04}, {33.90, 0.74, -11.10, 1.05},
  {76.02, 14.55, -6.92, 0.57}, {72.27, 13.22, -6.96, 0.61}, {113.69, 22.64, -6.39, 0.52}, {96.99, 18.32, -6.30, 0.60}, {121.15, 18.50, -4.55, 0.31},
  {231.96, 48.96, -3.68, 0.31}, {98.53, 22.75, -4.72, 0.50}, {183.70, 58.34, -3.81, 0.51}, {273.36, 167.10, -3.81, 0.47}, {228.29, 132.43, -3.95, 0.53},
  {303.96, 95.24, -3.16, 0.36}, {237.00, 77.24, -3.31, 0.44}, {76.58, 9.04, -5.49, 0.36}, {122.12, 21.25, -4.66, 0.40}, {69.42, 9.38, -5.71, 0.63},
  {104.15, 23.47, -4.83, 0.59}, {165.67, 65.57, -4.70, 0.44}, {143.52, 53.45, -4.83, 0.49}, {184.67, 40.34, -3.98, 0.35}, {154.11, 33.86, -4.16, 0.45},
  {46.22, 4.28, -7.81, 0.86}, {53.68, 8.76, -7.52, 0.84}, {45.30, 3.86, -8.09, 0.98}, {51.50, 7.99, -7.60, 0.90}, {108.83, 20.45, -6.13, 0.43},
  {103.87, 18.32, -6.16, 0.47}, {160.21, 31.66, -5.49, 0.53}, {133.01, 25.30, -5.52, 0.53}, {41.12, 1.61, -9.82, 1.99}, {40.45, 1.25, -10.55, 1.21},
  {40.45, 0.89, -10.61, 1.71}, {40.18, 0.78, -10.92, 1.16}, {107.47, 20.28, -6.34, 0.48}, {102.37, 18.17, -6.39, 0.52}, {159.97, 31.76, -5.97, 0.63},
  {132.49, 25.80, -5.82, 0.59}, {150.30, 21.26, -4.43, 0.28}, {302.95, 56.12, -3.58, 0.27}, {122.29, 26.43, -4.57, 0.37}, {239.20, 70.05, -3.66, 0.34},
  {406.36, 238.39, -3.54, 0.45}, {345.96, 194.79, -3.65, 0.49}, {394.05, 119.92, -3.03, 0.33}, {303.36, 97.13, -3.16, 0.38}, {91.84, 10.51, -5.34, 0.32},
  {154.99, 26.98, -4.52, 0.36}, {83.09, 11.12, -5.53, 0.43}, {130.80, 29.24, -4.65, 0.45}, {246.22, 94.32, -4.39, 0.41}, {216.34, 80.12, -4.51, 0.45},
  {237.65, 50.90, -3.84, 0.32}, {200.43, 43.83, -3.97, 0.37}, {54.66, 4.47, -7.29, 0.56}, {61.59, 8.44, -7.44, 0.83}, {53.61, 4.00, -7.64, 0.82},
  {59.54, 7.68, -7.46, 0.85}, {146.02, 25.69, -5.88, 0.38}, {140.72, 23.23, -5.91, 0.41}, {213.69, 40.13, -5.24, 0.51}, {174.31, 34.02, -5.30, 0.49},
  {49.28, 1.56, -7.69, 0.84}, {47.78, 1.35, -10.10, 1.22}, {48.26, 0.93, -9.01, 1.89}, {47.52, 0.87, -10.60, 1.33}, {145.72, 25.38, -6.01, 0.41},
  {140.08, 23.42, -6.05, 0.43}, {213.18, 39.19, -5.56, 0.60}, {174.18, 33.78, -5.52, 0.55}, {23.46, 2.72, -4.03, 0.14}, {23.52, 2.77, -4.03, 0.14},
  {22.65, 2.26, -3.79, 0.33}, {17.06, 7.92, 0.00, 0.00}, {13.77, 5.93, 0.00, 0.00}, {17.00, 7.31, 0.00, 0.00}, {13.49, 7.63, 0.00, 0.00},
  {11.99, 6.00, 0.00, 0.00}, {13.85, 7.30, 0.00, 0.00}, {11.69, 6.79, 0.00, 0.00}, {10.96, 5.75, 0.00, 0.00}, {12.10, 6.72, 0.00, 0.00},
  {40.07, 4.68, -3.67, 0.20}, {40.08, 4.64, -3.66, 0.19}, {40.16, 7.83, -3.41, 0.30}, {38.25, 4.61, 0.00, 0.00}, {39.12, 3.68, 0.00, 0.00},
  {38.53, 7.28, 0.00, 0.00}, {35.50, 7.28, 0.00, 0.00}, {36.09, 7.00, 0.00, 0.00}, {36.38, 7.87, 0.00, 0.00}, {33.05, 8.73, 0.00, 0.00},
  {33.45, 8.63, 0.00, 0.00}, {34.36, 8.45, 0.00, 0.00}, {57.46, 5.83, -3.71, 0.18}, {57.49, 5.75, -3.70, 0.18}, {63.46, 16.59, -3.27, 0.31},
  {55.41, 5.96, 0.00, 0.00}, {59.95, 6.17, 0.00, 0.00}, {60.49, 14.94, 0.00, 0.00}, {53.82, 6.00, 0.00, 0.00}, {58.44, 6.76, 0.00, 0.00},
  {57.93, 13.25, 0.00, 0.00}, {52.34, 6.86, 0.00, 0.00}, {56.30, 7.77, 0.00, 0.00}, {55.85, 12.15, 0.00, 0.00}, {75.11, 6.47, -3.70, 0.16},
  {75.01, 6.40, -3.71, 0.15}, {91.56, 26.47, -3.13, 0.30}, {73.76, 6.72, 0.00, 0.00}, {81.72, 7.48, 0.00, 0.00}, {87.64, 24.87, 0.00, 0.00},
  {72.30, 6.98, 0.00, 0.00}, {80.35, 7.71, 0.00, 0.00}, {83.82, 21.80, 0.00, 0.00}, {71.29, 7.13, 0.00, 0.00}, {79.28, 8.04, 0.00, 0.00},
  {81.54, 21.39, 0.00, 0.00}, {94.18, 7.21, -3.69, 0.14}, {94.23, 7.45, -3.70, 0.14}, {124.60, 36.67, -3.02, 0.27}, {93.38, 7.64, 0.00, 0.00},
  {104.37, 8.21, 0.00, 0.00}, {119.83, 34.58, 0.00, 0.00}, {92.25, 7.85, 0.00, 0.00}, {103.46, 8.25, 0.00, 0.00}, {114.76, 31.15, 0.00, 0.00},
  {90.82, 8.13, 0.00, 0.00}, {102.52, 8.37, 0.00, 0.00}, {112.04, 30.03, 0.00, 0.00},
