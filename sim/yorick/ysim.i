/* Simulated runs of the Yorick interface: the interpreter, opky.i and the
 * plug-in are the real ones; every decision is a sim_draw(). */

func y_u(lo, hi) { return lo + (hi - lo)*(sim_draw(4096)/4095.0); }
func y_chance(num, den) { return sim_draw(den) >= den - num; }
func y_vec(n, lo, hi) { v = array(double, n); for (i = 1; i <= n; ++i) v(i) = y_u(lo, hi); return v; }
func y_flat(x) { if (is_void(x)) return []; if (!dimsof(x)(1)) return [x]; return sim_copy(x(*)); }
func y_str(x) { return is_void(x) ? "[]" : sum(print(x)); }
func y_note(..) { s = ""; while (more_args()) { a = next_arg(); s += (is_string(a) && !dimsof(a)(1) ? a : y_str(a)) + " "; } sim_note, s; }
func y_check(ok, oracle, msg) { if (!ok) sim_fail, oracle, msg; }

/* ------------------------------------------------------------------ dims */
/* a dimension list in one of the accepted forms, and the true dimensions */
func y_dims(&form, &dims) {
  k = sim_draw(10);
  if (k <= 3) { n = 1 + sim_draw(6); form = (k == 3 ? int(n) : (k == 2 ? short(n) : n)); dims = [1, n]; }
  else if (k <= 5) { n = 1 + sim_draw(6); form = dims = [1, n]; }
  else if (k == 6) { dims = [2, 1 + sim_draw(3), 1 + sim_draw(3)]; form = int(dims); }
  else if (k == 7) { form = dims = [3, 1 + sim_draw(2), 1 + sim_draw(3), 1 + sim_draw(2)]; }
  else if (k == 8) { form = []; dims = [0]; }
  else { form = [0]; dims = [0]; }
  if (k >= 8) sim_probe, "no dimensions";
}
func y_array(type, dims, v) { if (!dims(1)) return type(v(1)); x = array(type, dims); x(*) = v; return x; }

/* -------------------------------------------------------------- objective */
/* f = sum(d*t^2)/2 + q*sum(t^4)/4 + s*sum(t)^2/2, t = x - c */
func y_new_obj(n) {
  d = y_vec(n, 0.2, 5.0); c = y_vec(n, -2.0, 2.0); q = (y_chance(1, 3) ? y_u(0.0, 1.0) : 0.0); s = (y_chance(1, 3) ? y_u(0.0, 1.0) : 0.0);
  return save(d, c, q, s);
}
func y_fg(p, x, &g) {
  t = double(y_flat(x)) - p.c; s1 = sum(t);
  gg = p.d*t + p.q*t^3 + p.s*s1;
  g = y_array(structof(x), dimsof(x), structof(x)(gg));
  return 0.5*sum(p.d*t*t) + 0.25*p.q*sum(t^4) + 0.5*p.s*s1^2;
}

/* ---------------------------------------------------------------- options */
/* options of an optimizer: values, and mask for the reference */
func y_options(alg, &mask, &vals, &bad) {
  o = save(delta=[], epsilon=[], gatol=[], grtol=[], stpmin=[], stpmax=[], fmin=[], flags=[], mem=[]);
  mask = array(0, 9); vals = array(0.0, 9); bad = 0n;
  if (y_chance(1, 3)) { vals(1) = [0.05, 1e-3, 0.5, 2.0, -1.0](1 + sim_draw((y_chance(1, 20) ? 5 : 4))); save, o, delta=vals(1); mask(1) = 1; }
  if (y_chance(1, 4)) { vals(2) = [0.0, 1e-3, 0.2, 1.5](1 + sim_draw((y_chance(1, 20) ? 4 : 3))); save, o, epsilon=vals(2); mask(2) = 1; }
  if (y_chance(1, 3)) { vals(3) = [0.0, 1e-6, 1e-2, 1.0, -1.0](1 + sim_draw((y_chance(1, 20) ? 5 : 4))); save, o, gatol=(vals(3) == 1.0 ? 1 : vals(3)); mask(3) = 1; }
  if (y_chance(1, 3)) { vals(4) = [0.0, 1e-6, 1e-2, 0.5, 1.0](1 + sim_draw((y_chance(1, 20) ? 5 : 4))); save, o, grtol=(y_chance(1, 8) ? float(vals(4)) : vals(4)); vals(4) = double(o.grtol); mask(4) = 1; }
  if (y_chance(1, 5)) { vals(5) = [1e-20, 0.0, 1e-3, -1.0](1 + sim_draw((y_chance(1, 20) ? 4 : 3))); save, o, stpmin=vals(5); mask(5) = 1; }
  if (y_chance(1, 5)) { vals(6) = [1e20, 10.0, 2.0, 1e-30](1 + sim_draw((y_chance(1, 20) ? 4 : 3))); save, o, stpmax=(vals(6) == 2.0 ? 2n : vals(6)); mask(6) = 1; }
  if (alg == 0) {
    if (y_chance(1, 5)) { vals(7) = [0.0, -10.0, 0.1](1 + sim_draw(3)); save, o, fmin=vals(7); mask(7) = 1; }
    if (y_chance(1, 2)) { fl = 1 + sim_draw(8); fl |= [0, OPK_NLCG_POWELL, OPK_NLCG_SHANNO_PHUA, OPK_NLCG_POWELL|OPK_NLCG_SHANNO_PHUA](1 + sim_draw(4)); if (y_chance(1, 30)) fl = 12345; save, o, flags=(y_chance(1, 2) ? int(fl) : fl); vals(8) = fl; mask(8) = 1; }
  } else if (y_chance(1, 2)) {
    m = 1 + sim_draw(7); if (y_chance(1, 25)) { m = -sim_draw(2); bad = 1n; }
    save, o, mem=(y_chance(1, 2) ? int(m) : m); vals(9) = m; mask(9) = 1;
  }
  return o;
}
/* bounds: what is given, and what the reference gets */
func y_bound(n, dims, type, low, &rb) {
  k = sim_draw(4); rb = [];
  if (k <= 1) return [];
  if (k == 2) { v = (low ? y_u(-3.0, 0.0) : y_u(0.5, 3.0)); rb = v; if (y_chance(1, 3)) { v = long(v); rb = double(v); } return v; }
  v = (low ? y_vec(n, -3.0, 0.0) : y_vec(n, 0.5, 3.0));
  j = sim_draw(4); t = (j == 0 ? type : (j == 1 ? double : (j == 2 ? float : long)));
  b = y_array(t, dims, t(v));
  rb = y_flat(type(b));
  if (!dims(1)) rb = double(b(1));
  return b;
}
func y_ctor(alg, form, single, lo, up, o, order) {
  if (order == 2) { // no keywords
    return (alg == 0 ? opk_nlcg(form) : (alg == 1 ? opk_vmlmb(form) : opk_blmvm(form)));
  }
  if (order == 1 && o.last) { // the dimensions after the keywords
    if (alg == 0) return opk_nlcg(flags=o.flags, single=single, delta=o.delta, epsilon=o.epsilon, gatol=o.gatol, grtol=o.grtol, stpmin=o.stpmin, stpmax=o.stpmax, fmin=o.fmin, form);
    if (alg == 1) return opk_vmlmb(upper=up, stpmax=o.stpmax, mem=o.mem, lower=lo, single=single, delta=o.delta, grtol=o.grtol, epsilon=o.epsilon, gatol=o.gatol, stpmin=o.stpmin, form);
    return opk_blmvm(lower=lo, mem=o.mem, single=single, delta=o.delta, upper=up, epsilon=o.epsilon, gatol=o.gatol, grtol=o.grtol, stpmin=o.stpmin, stpmax=o.stpmax, form);
  }
  if (order >= 4 && alg > 0) { // a bound is the last argument
    if (order == 4 && alg == 1) return opk_vmlmb(upper=up, form, single=single, mem=o.mem, delta=o.delta, epsilon=o.epsilon, gatol=o.gatol, grtol=o.grtol, stpmin=o.stpmin, stpmax=o.stpmax, lower=lo);
    if (order == 4) return opk_blmvm(form, single=single, mem=o.mem, delta=o.delta, epsilon=o.epsilon, gatol=o.gatol, grtol=o.grtol, stpmin=o.stpmin, upper=up, stpmax=o.stpmax, lower=lo);
    if (alg == 1) return opk_vmlmb(lower=lo, mem=o.mem, delta=o.delta, epsilon=o.epsilon, gatol=o.gatol, grtol=o.grtol, stpmin=o.stpmin, stpmax=o.stpmax, form, single=single, upper=up);
    return opk_blmvm(form, mem=o.mem, delta=o.delta, epsilon=o.epsilon, gatol=o.gatol, grtol=o.grtol, stpmin=o.stpmin, stpmax=o.stpmax, single=single, lower=lo, upper=up);
  }
  if (order >= 4) { // the precision or the flags are the last argument
    if (order == 4) return opk_nlcg(form, fmin=o.fmin, delta=o.delta, epsilon=o.epsilon, gatol=o.gatol, grtol=o.grtol, stpmin=o.stpmin, stpmax=o.stpmax, flags=o.flags, single=single);
    return opk_nlcg(single=single, fmin=o.fmin, form, delta=o.delta, epsilon=o.epsilon, gatol=o.gatol, grtol=o.grtol, stpmin=o.stpmin, stpmax=o.stpmax, flags=o.flags);
  }
  if (order == 3) { // default type
    if (alg == 0) return opk_nlcg(form, flags=o.flags, fmin=o.fmin, delta=o.delta, epsilon=o.epsilon, gatol=o.gatol, grtol=o.grtol, stpmin=o.stpmin, stpmax=o.stpmax);
    if (alg == 1) return opk_vmlmb(form, mem=o.mem, lower=lo, upper=up, delta=o.delta, epsilon=o.epsilon, gatol=o.gatol, grtol=o.grtol, stpmin=o.stpmin, stpmax=o.stpmax);
    return opk_blmvm(form, mem=o.mem, lower=lo, upper=up, delta=o.delta, epsilon=o.epsilon, gatol=o.gatol, grtol=o.grtol, stpmin=o.stpmin, stpmax=o.stpmax);
  }
  if (alg == 0) {
    if (order) return opk_nlcg(flags=o.flags, single=single, form, delta=o.delta, epsilon=o.epsilon, gatol=o.gatol, grtol=o.grtol, stpmin=o.stpmin, stpmax=o.stpmax, fmin=o.fmin);
    return opk_nlcg(form, flags=o.flags, single=single, fmin=o.fmin, delta=o.delta, epsilon=o.epsilon, gatol=o.gatol, grtol=o.grtol, stpmin=o.stpmin, stpmax=o.stpmax);
  }
  if (alg == 1) {
    if (order) return opk_vmlmb(upper=up, stpmax=o.stpmax, mem=o.mem, form, lower=lo, single=single, delta=o.delta, grtol=o.grtol, epsilon=o.epsilon, gatol=o.gatol, stpmin=o.stpmin);
    return opk_vmlmb(form, mem=o.mem, single=single, lower=lo, upper=up, delta=o.delta, epsilon=o.epsilon, gatol=o.gatol, grtol=o.grtol, stpmin=o.stpmin, stpmax=o.stpmax);
  }
  return opk_blmvm(form, lower=lo, mem=o.mem, single=single, delta=o.delta, upper=up, epsilon=o.epsilon, gatol=o.gatol, grtol=o.grtol, stpmin=o.stpmin, stpmax=o.stpmax);
}
func y_try_ctor(alg, form, single, lo, up, o, order, &opt) {
  opt = [];
  if (catch(-1)) { if (sim_failed()) error, catch_message; return catch_message; }
  opt = y_ctor(alg, form, single, lo, up, o, order);
  return [];
}

/* -------------------------------------------- constants, refused creations */
y_names = ["OPK_TASK_ERROR", "OPK_TASK_COMPUTE_FG", "OPK_TASK_NEW_X", "OPK_TASK_FINAL_X", "OPK_TASK_WARNING",
  "OPK_NLCG_FLETCHER_REEVES", "OPK_NLCG_HESTENES_STIEFEL", "OPK_NLCG_POLAK_RIBIERE_POLYAK", "OPK_NLCG_FLETCHER", "OPK_NLCG_LIU_STOREY",
  "OPK_NLCG_DAI_YUAN", "OPK_NLCG_PERRY_SHANNO", "OPK_NLCG_HAGER_ZHANG", "OPK_NLCG_POWELL", "OPK_NLCG_SHANNO_PHUA", "OPK_NLCG_DEFAULT",
  "COBYLA_ITERATE", "COBYLA_SUCCESS", "COBYLA_BAD_NVARS", "COBYLA_BAD_NCONS", "COBYLA_BAD_RHO_RANGE", "COBYLA_BAD_SCALING",
  "COBYLA_ROUNDING_ERRORS", "COBYLA_TOO_MANY_EVALUATIONS", "COBYLA_BAD_ADDRESS", "COBYLA_CORRUPTED",
  "NEWUOA_ITERATE", "NEWUOA_SUCCESS", "NEWUOA_BAD_NVARS", "NEWUOA_BAD_NPT", "NEWUOA_BAD_RHO_RANGE", "NEWUOA_BAD_SCALING",
  "NEWUOA_ROUNDING_ERRORS", "NEWUOA_TOO_MANY_EVALUATIONS", "NEWUOA_STEP_FAILED", "NEWUOA_BAD_ADDRESS", "NEWUOA_CORRUPTED"];
func y_constants(first, last) {
  j = first + sim_draw(last - first + 1);
  if (sim_draw(2)) { // initializing again restores the constants
    old = symbol_def(y_names(j)); symbol_set, y_names(j), 7777;
    if (strpart(y_names(j), 1:3) == "OPK") opk_init; else if (strpart(y_names(j), 1:3) == "COB") cobyla_init; else newuoa_init;
    new = symbol_def(y_names(j)); if (sim_tracing()) y_note, "initialized again", y_names(j), new;
    symbol_set, y_names(j), old;
    y_check, new == old, "constant", "initializing again does not restore " + y_names(j);
    sim_probe, "initialized again";
  }
  v = sim_constants();
  for (j = first; j <= last; ++j) y_check, symbol_def(y_names(j)) == v(j), "constant", y_names(j) + " is " + y_str(symbol_def(y_names(j))) + " instead of " + y_str(v(j));
  if (first == 1) {
    j = 1 + sim_draw(last); y_check, opk_get_constant(y_names(j)) == v(j), "constant", "opk_get_constant gives another value of " + y_names(j);
    y_check, is_void(opk_get_constant("OPK_UNKNOWN")), "constant", "opk_get_constant knows a constant which does not exist";
  }
}
func y_bad_call(k, alg, how) {
  if (catch(-1)) { if (sim_failed()) error, catch_message; return catch_message; }
  fn = (alg == 0 ? opk_nlcg : (alg == 1 ? opk_vmlmb : opk_blmvm));
  if (k == 0) a = fn(0); else if (k == 1) a = fn(-3); else if (k == 2) a = fn([2, 3]); else if (k == 3) a = fn([1, 0]); else if (k == 4) a = fn([2, 2, -1]);
  else if (k == 5) a = fn("3"); else if (k == 6) a = fn(2.5); else if (k == 7) a = fn([[1, 2], [1, 2]]); else if (k == 8) a = fn(array(1, 20));
  else if (k == 9) a = fn(3, 3); else if (k == 10) a = fn(single=1); else if (k == 11) a = fn(3, nokey=1); else if (k == 12) a = fn(3, delta="a"); else if (k == 13) a = fn(3, grtol=[0.1, 0.2]);
  else if (k == 14) { if (alg == 0) a = fn(3, flags=1.5); else a = fn(3, mem=2.5); }
  else if (k == 15) { if (alg == 0) a = fn(3, flags=[1, 2]); else a = fn(3, mem=[1, 2]); }
  else if (k == 16) { if (alg == 0) a = fn(3, lower=0.0); else if (how) a = fn(3, lower=array(0.0, 4)); else a = fn([2, 3, 2], upper=array(0.0, 6)); }
  else if (k == 17) { if (alg == 0) a = fn(3, mem=3); else if (how) a = fn(3, lower=0.0, upper="a"); else a = fn(3, lower=array(0.0, 3), upper=array(complex, 3)); }
  else if (k == 18) { if (alg == 0) a = fn(3, upper=0.0); else if (how) a = fn(3, upper=array(1.0, 3), lower=array(0.0, 3, 1)); else a = fn(3, single=1, lower=array(0.0, 3), upper=array(1.0, 4)); }
  else if (k == 19) a = opk_start(3.0, [1.0]); else if (k == 20) a = opk_start(fn(3)); else if (k == 21) a = opk_iterate(fn(3), [1.0, 2.0, 3.0], 1.0); else if (k == 22) a = opk_get_task(1.0);
  else if (k == 23) a = opk_get_status([]); else if (k == 24) a = opk_get_reason("a"); else if (k == 25) a = opk_get_constant(1);
  else { // opk_gqtpar
    local l, f, it, st, eighth; A = [[2.0, 1.0], [1.0, 3.0]]; b = [1.0, 2.0];
    if (k == 26) a = opk_gqtpar(A, b); else if (k == 27) a = opk_gqtpar(A, b, 1.0, l, 2.0*3.0); else if (k == 28) a = opk_gqtpar(A, b, 1.0, l, f, 2 + 1); else if (k == 29) a = opk_gqtpar(A, b, 1.0, l, f, it, 2 + 1);
    else if (k == 30) { if (how) a = opk_gqtpar(A, b, 1.0, l, f, it, st, 1); else a = opk_gqtpar(A, b, 1.0, l, f, it, st, eighth); } else if (k == 31) a = opk_gqtpar(A, b, 1.0, nokey=1); else if (k == 32) a = opk_gqtpar(A, b, (alg ? -1.0 : 0.0)); else if (k == 33) a = opk_gqtpar(A, b, 1.0, [0.1, 0.2]);
    else if (k == 34) a = opk_gqtpar(A, [1.0, 2.0, 3.0], 1.0); else if (k == 35) a = opk_gqtpar(A(,1), b, 1.0); else if (k == 36) a = opk_gqtpar(A, b, 1.0, maxiter=(alg ? -1 : 0)); else if (k == 37) a = opk_gqtpar(A, b, 1.0, atol=-1e-9);
    else if (k == 38) a = opk_gqtpar(b, 1.0); else if (k == 39) a = opk_gqtpar((alg ? complex(A) : A), (alg ? b : complex(b)), 1.0); else if (k == 40) a = opk_iterate(fn(3)); else if (k == 41) { x = [1.0, 2.0, 3.0]; a = opk_start(fn(3), x, 1); } else if (k == 42) a = opk_get_task(); else a = opk_get_status(fn(3), 1);
  }
  return [];
}
func y01_refused(nil) {
  m = 1 + sim_draw(4);
  for (i = 1; i <= m; ++i) {
    k = sim_draw(44); alg = sim_draw(3); how = sim_draw(2); live = sim_live();
    e = y_bad_call(k, alg, how); sim_fault, "refused call";
    if (sim_tracing()) y_note, "refused call", k, alg, how, (is_void(e) ? "no error" : e);
    y_check, !is_void(e), "misuse", swrite(format="invalid arguments are accepted (case %d, optimizer %d)", k, alg);
    y_check, sim_live() == live, "creation-leak", swrite(format="a refused call leaked memory (case %d, optimizer %d)", k, alg);
    sim_event, k, alg, how;
  }
}

/* ------------------------------------------------------- lockstep with C */
func y_new_slot(nil) {
  local form, dims, mask, vals, bad, rlo, rup, opt;
  y_dims, form, dims; n = 1; for (i = 2; i <= numberof(dims); ++i) n *= dims(i);
  alg = sim_draw(3); single = y_chance(1, 3); type = (single ? float : double);
  o = y_options(alg, mask, vals, bad);
  lo = up = [];
  if (alg > 0) { lo = y_bound(n, dims, type, 1n, rlo); up = y_bound(n, dims, type, 0n, rup); }
  if (alg > 0 && y_chance(1, 40)) { lo = 4.0; up = -4.0; rlo = 4.0; rup = -4.0; sim_fault, "crossed bounds"; }
  lo0 = sim_copy(lo); up0 = sim_copy(up);
  k = (bad ? -1 : sim_new(alg, single, n, rlo, rup, mask, vals));
  live = sim_live(); oom = (y_chance(1, 12) ? 1 + sim_draw(12) : 0); r0 = sim_refused();
  if (oom) sim_oom, oom;
  sing = (single ? (y_chance(1, 2) ? 1n : 2.0) : (y_chance(1, 2) ? [] : 0n));
  order = (y_chance(1, 3) ? 4 + sim_draw(2) : sim_draw((single ? 2 : 4))); save, o, last=sim_draw(2);
  if (order == 2 && (anyof(mask) || !is_void(lo) || !is_void(up))) order = 3;
  e = y_try_ctor(alg, form, sing, lo, up, o, order, opt);
  sim_oom, 0; refused = sim_refused() - r0;
  if (sim_tracing()) y_note, "create alg", alg, "single", single, "dims", form, "lower", lo, "upper", up, "opts", mask, vals, "ref", k, "error", (is_void(e) ? "none" : e);
  if (refused) {
    sim_fault, "allocation failure";
    y_check, !is_void(e), "oom-unreported", "an optimizer was created though an allocation has been refused";
    y_check, sim_live() == live, "oom-leak", "memory was leaked by a creation whose allocation was refused";
    e = y_try_ctor(alg, form, sing, lo, up, o, 0, opt);
  }
  y_check, is_void(e) == (k >= 0), "creation", "creating an optimizer with " + (k >= 0 ? "valid" : "invalid") + " options: " + (is_void(e) ? "no error" : e);
  y_check, sim_same(lo, lo0) && sim_same(up, up0), "bounds-changed", "creating an optimizer changed its bounds";
  if (k < 0) { sim_fault, "invalid options"; y_check, sim_live() == live, "creation-leak", "a refused creation leaked memory"; return []; }
  x = y_array(type, dims, type(y_vec(n, -3.0, 3.0)));
  s = save(opt, k, n, dims, single, type, alg, lo, up, lo0, up0, x, xr=y_flat(x), g=[], f=0.0, obj=y_new_obj(n), started=0n, task=OPK_TASK_ERROR, bl=0);
  y_members, s, 1n;
  return s;
}
func y_printed(obj) { p = print(obj); s = ""; for (i = 1; i <= numberof(p); ++i) { l = p(i); if (strpart(l, 0:0) == "\\") l = strpart(l, 1:-1); s += l; } return s; }
/* names which are not the ones of members, but nearly */
y_unknown = ["unknown", "na", "namea", "siz", "sing", "statu", "statusx", "ta", "tasks", "iteration", "evals", "restart", "reasons", "gnorms", "ste", "stepsize", "dim", "dimsof", "low", "uppers", "descr", "x"];
func y_member(opt, j) {
  if (j < 8) return (j < 4 ? (j < 2 ? (j ? opt.na : opt.unknown) : (j == 2 ? opt.namea : opt.siz)) : (j < 6 ? (j == 4 ? opt.sing : opt.statu) : (j == 6 ? opt.statusx : opt.ta)));
  if (j < 15) return (j < 12 ? (j < 10 ? (j == 8 ? opt.tasks : opt.iteration) : (j == 10 ? opt.evals : opt.restart)) : (j == 12 ? opt.reasons : (j == 13 ? opt.gnorms : opt.ste)));
  return (j < 18 ? (j == 15 ? opt.stepsize : (j == 16 ? opt.dim : opt.dimsof)) : (j < 20 ? (j == 18 ? opt.low : opt.uppers) : (j == 20 ? opt.descr : opt.x)));
}
func y_members(s, full) {
  opt = s.opt; q = sim_query(s.k);
  same = opt.task == q(1) && opt.status == q(2) && opt.iterations == q(3) && opt.evaluations == q(4) && opt.restarts == q(5) && sim_same(opt.gnorm, q(6)) && sim_same(opt.step, q(7));
  y_check, same, "members", "task, status, counters or norms are not those of the optimizer: " + y_str([double(opt.task), opt.status, opt.iterations, opt.evaluations, opt.restarts, opt.gnorm, opt.step]) + " instead of " + y_str(q);
  y_check, opk_get_task(opt) == q(1) && opk_get_status(opt) == q(2), "queries", "opk_get_task or opk_get_status differ from the members";
  if (full) {
    t = sim_text(s.k);
    y_check, opt.name == t(1) && opt.description == t(2) && opt.reason == t(3) && opk_get_reason(opt.status) == t(3), "texts", "name, description or reason are not those of the optimizer";
    y_check, opt.size == s.n && opt.single == s.single && sim_same(opt.dims, s.dims), "size", "size, precision or dimensions are not those requested";
    j = sim_draw(numberof(y_unknown)); y_check, is_void(y_member(opt, j)), "unknown-member", "the unknown member " + y_unknown(j + 1) + " has a value";
    lo = opt.lower; up = opt.upper;
    y_check, (is_void(lo) == is_void(s.lo)) && (is_void(up) == is_void(s.up)), "bounds", "bounds are missing or were invented";
    if (!is_void(lo)) y_check, allof(s.type(lo) == s.type(s.lo0)) && numberof(lo) == numberof(s.lo0), "bounds", "the lower bound is not the one given";
    if (!is_void(up)) y_check, allof(s.type(up) == s.type(s.up0)) && numberof(up) == numberof(s.up0), "bounds", "the upper bound is not the one given";
    p = y_printed(opt);
    y_check, strmatch(p, t(1)) && strmatch(p, t(2)) && strmatch(p, swrite(format="(size=%d, type=%s)", s.n, (s.single ? "float" : "double"))), "printing", "printing an optimizer does not tell its name, size and type";
  }
  sim_event, q;
}
func y_try_start(opt, &x, &task) { if (catch(-1)) { if (sim_failed()) error, catch_message; return catch_message; } task = opk_start(opt, x); return []; }
func y_try_iterate(opt, &x, f, &g, &task) { if (catch(-1)) { if (sim_failed()) error, catch_message; return catch_message; } task = opk_iterate(opt, x, f, g); return []; }
func y_after(s, x, xr, task, rt, what) {
  y_check, task == rt, "task", what + " returned task " + y_str(task) + " instead of " + y_str(rt);
  y_check, structof(x) == s.type && sim_same(dimsof(x), s.dims), "type-of-x", what + " changed the type or the dimensions of the variables";
  y_check, sim_same(y_flat(x), xr), "variables", what + " gave the variables " + y_str(x) + " instead of " + y_str(xr);
  y_check, sim_same(s.lo, s.lo0) && sim_same(s.up, s.up0), "bounds-changed", what + " changed the bounds";
  sim_event, x, task;
  save, s, x, xr, task;
  if (sim_tracing()) y_note, what, "task", task, "x", x;
  y_members, s, y_chance(1, 16);
}
func y_do_start(s) {
  local task;
  x = s.x; if (y_chance(1, 2)) x = y_array(s.type, s.dims, s.type(y_vec(s.n, -3.0, 3.0)));
  if (!s.dims(1)) sim_probe, "scalar variables";
  x = sim_copy(x); xr = y_flat(x); opt = s.opt;
  rt = sim_start(s.k, xr);
  e = y_try_start(opt, x, task);
  y_check, is_void(e), "start-error", "opk_start raised an error: " + (is_void(e) ? "" : e);
  if (s.started) sim_probe, "restart";
  save, s, started=1n;
  y_after, s, x, xr, task, rt, "opk_start";
}
func y_do_iterate(s) {
  local g, task;
  x = s.x; xr = s.xr; opt = s.opt;
  if (s.task == OPK_TASK_COMPUTE_FG || is_void(s.g)) {
    f = y_fg(s.obj, x, g);
    if (y_chance(1, 12)) {
      j = sim_draw(5);
      if (j == 0) { f = y_u(-100.0, 100.0); sim_fault, "wrong value"; }
      else if (j == 1) { g = -g; sim_fault, "opposite gradient"; }
      else if (j == 2) { f = [1e30, 1e308*10.0, (1e308*10.0)*0.0](1 + sim_draw(3)); sim_fault, "huge or non-finite value"; }
      else if (j == 3) { g = s.type(0)*g; sim_fault, "zero gradient"; }
      else { g = s.type(1e10)*g; sim_fault, "huge gradient"; }
    }
  } else { g = s.g; f = s.f; }
  if (y_chance(1, 4)) x = sim_copy(x);
  g = sim_copy(g); g0 = sim_copy(g); ff = f;
  if (y_chance(1, 16)) { f = double(float(f)); ff = float(f); }
  else if (y_chance(1, 30)) { f = double(long(min(max(f, -1e9), 1e9))); ff = long(f); }
  rt = sim_iterate(s.k, xr, f, y_flat(g0));
  e = y_try_iterate(opt, x, ff, g, task);
  y_check, is_void(e), "iterate-error", "opk_iterate raised an error: " + (is_void(e) ? "" : e);
  y_check, sim_same(g, g0), "gradient-changed", "opk_iterate changed the gradient";
  save, s, g, f;
  if (rt == OPK_TASK_FINAL_X) sim_probe, "converged"; else if (rt == OPK_TASK_ERROR) sim_probe, "error state"; else if (rt == OPK_TASK_WARNING) sim_probe, "warning";
  y_after, s, x, xr, task, rt, "opk_iterate";
}
/* a call which must be refused and change nothing */
func y_do_misuse(s) {
  local g, task;
  opt = s.opt; x = sim_copy(s.x); f = y_fg(s.obj, x, g); other = (s.single ? double : float);
  k = sim_draw(14); what = ["x of the other precision", "integer x", "x of other dimensions", "flattened x", "no x", "g of the other precision", "g of other dimensions", "no g", "f is an array", "f is nothing", "f is a string", "not an optimizer", "x of the other precision in start", "x of other dimensions in start"](k+1);
  if (k == 0) x = other(x); else if (k == 1) x = long(x); else if (k == 2) x = array(s.type, grow(s.dims(1)+1, (numberof(s.dims) > 1 ? s.dims(2:) : []), 2));
  else if (k == 3) { if (s.dims(1) == 1) x = array(s.type, s.n + 1); else x = y_flat(x); }
  else if (k == 4) x = [];
  else if (k == 5) g = other(g); else if (k == 6) g = array(s.type, (s.dims(1) == 1 ? s.n + 1 : s.n)); else if (k == 7) g = [];
  else if (k == 8) f = [f, f]; else if (k == 9) f = []; else if (k == 10) f = "f"; else if (k == 11) opt = 3;
  else if (k == 12) x = other(x); else x = array(s.type, (s.dims(1) == 1 ? s.n + 1 : s.n));
  if (k == 13 && s.dims(1) != 1 && !s.dims(1)) x = [x, x];
  if (k == 6 && !s.dims(1)) g = [g, g];
  x0 = sim_copy(x); g0 = sim_copy(g);
  live = sim_live();
  e = (k >= 12 ? y_try_start(opt, x, task) : y_try_iterate(opt, x, f, g, task));
  sim_fault, what;
  if (sim_tracing()) y_note, "misuse:", what, (is_void(e) ? "no error" : e);
  y_check, !is_void(e), "misuse", "no error raised: " + what;
  y_check, sim_same(x, x0) && sim_same(g, g0) && sim_live() == live, "misuse-effect", "a refused call changed its arguments: " + what;
  y_members, s, 0n;
  y_check, sim_same(y_flat(s.x), s.xr), "misuse-effect", "a refused call changed the variables: " + what;
}
func y01_lockstep(nil) {
  slots = save(); m = 1 + sim_draw(3); nl = 0;
  for (i = 1; i <= m; ++i) { s = y_new_slot(); if (!is_void(s)) { save, slots, string(0), s; ++nl; } }
  if (!nl) { y_check, sim_live() == 0, "leak", "memory remains allocated after refused creations"; return; }
  steps = 3 + sim_draw((y_chance(1, 10) ? 150 : 40));
  for (i = 1; i <= steps; ++i) {
    s = slots(1 + sim_draw(nl));
    k = sim_draw(24);
    if (!s.started && k < 22) { y_do_start, s; continue; }
    if (k < 19) y_do_iterate, s;
    else if (k < 20) y_do_start, s;
    else if (k < 22) y_do_misuse, s;
    else if (k == 22) y_members, s, 1n;
    else { alias = s.opt; save, s, opt=[]; save, s, opt=alias; alias = []; y_members, s, 0n; }
    sim_heap;
  }
  // release in some order
  while (nl > 0) {
    j = 1 + sim_draw(nl); s = slots(noop(j)); before = sim_live();
    sim_del, s.k; mid = sim_live();
    y_check, mid < before, "harness", "the reference was not destroyed";
    keep = sim_copy(s.lo);
    save, s, opt=[]; x = [];
    y_check, sim_live() < mid, "not-destroyed", "dropping the last reference to an optimizer released nothing";
    y_check, sim_same(s.lo, keep), "bounds-changed", "destroying an optimizer changed its bounds";
    n = save(); for (i = 1; i <= nl; ++i) if (i != j) save, n, string(0), slots(noop(i)); slots = n; --nl;
  }
  s = [];
  y_check, sim_live() == 0, "leak", "memory remains allocated when all the optimizers have been dropped";
}

/* ----------------------------------------------------------- opk_minimize */
/* state of the expected run, advanced by the objective function */
func y_min_advance(nil) {
  // after an evaluation at the current variables of the reference
  extern yc;
  xr = yc.xr; t = sim_iterate(yc.k, xr, yc.f, y_flat(yc.g));
  for (;;) {
    q = sim_query(yc.k);
    if (t == OPK_TASK_NEW_X || t == OPK_TASK_FINAL_X || t == OPK_TASK_WARNING) { save, yc, best=sim_copy(xr), bestf=yc.f, bestg=sim_copy(yc.g); }
    if (t == OPK_TASK_NEW_X) {
      if (yc.verb && !(q(3) % yc.verb)) save, yc, lines=yc.lines + 1;
      if (!is_void(yc.maxiter) && q(3) >= yc.maxiter) { save, yc, stop="too many iterations"; break; }
      t = sim_iterate(yc.k, xr, yc.f, y_flat(yc.g)); continue;
    }
    if (t == OPK_TASK_COMPUTE_FG) { if (!is_void(yc.maxeval) && q(4) >= yc.maxeval) save, yc, stop="too many evaluations"; break; }
    if (t == OPK_TASK_FINAL_X) { save, yc, stop="converged"; break; }
    if (t == OPK_TASK_WARNING) { save, yc, stop="warning"; break; }
    save, yc, stop="error"; break;
  }
  save, yc, xr;
  if (yc.verb && !is_void(yc.stop) && !(yc.stop == "too many iterations" && !(q(3) % yc.verb))) save, yc, lines=yc.lines + 1;
}
func y_min_fg(x, &g) {
  extern yc;
  local gg;
  save, yc, neval=yc.neval + 1;
  if (sim_tracing()) y_note, "evaluation", yc.neval, "x", x;
  y_check, is_void(yc.stop), "too-many-evaluations", "opk_minimize evaluates the function after: " + (is_void(yc.stop) ? "" : yc.stop);
  y_check, structof(x) == yc.type && sim_same(dimsof(x), yc.dims), "type-of-x", "the function is called with variables of another type or other dimensions";
  y_check, sim_same(y_flat(x), yc.xr), "variables", "opk_minimize evaluates the function at " + y_str(x) + " instead of " + y_str(yc.xr);
  y_check, structof(g) == yc.type && sim_same(dimsof(g), yc.dims), "type-of-g", "the gradient given to the function has not the type and dimensions of the variables";
  sim_event, x;
  if (yc.neval == yc.throw_at) { sim_fault, "the function raises an error"; error, "thrown by the function"; }
  f = y_fg(yc.obj, x, gg);
  if (yc.neval == yc.bad_at) {
    if (yc.bad == 0) { f = (yc.inplace ? 1e30 : (1e308*10.0)*0.0); sim_fault, "huge or non-finite value"; }
    else if (yc.bad == 1) { gg = -gg; sim_fault, "opposite gradient"; }
    else if (yc.bad == 2) { f = -1e3; sim_fault, "wrong value"; }
    else if (yc.bad == 3) { g = (yc.type == double ? float : double)(gg); sim_fault, "gradient of another type"; save, yc, stop="misuse"; return f; }
    else { g = grow(y_flat(gg), 1); sim_fault, "gradient of other dimensions"; save, yc, stop="misuse"; return f; }
  }
  save, yc, f=double(f), g=sim_copy(gg);
  if (yc.inplace && dimsof(g)(1) > 0) g(*) = gg(*); else g = gg;
  y_min_advance;
  return f;
}
/* The functions written in Yorick see the variables of their callers: these must neither be used nor changed. */
func y_mine(name, v) { y_check, is_string(v) && is_scalar(v) && v == "mine", "callers-variable", "the variable " + name + " of the caller is changed"; }
func y_try_minimize(x0, o, alg, single, lo, up, maxiter, maxeval, verb, output, &ox, &ofx, &ogx, outs) {
  local x, dims, opt, best_x, best_fx, best_gx, check_eval, check_iter, type, elapsed, wall_start, wall, task, reason, stage, evals, iters, TRUE, FALSE;
  x = dims = opt = best_x = best_fx = best_gx = check_eval = check_iter = type = elapsed = wall_start = wall = task = reason = stage = evals = iters = TRUE = FALSE = "mine";
  e = y_try_minimize1(x0, o, alg, single, lo, up, maxiter, maxeval, verb, output, ox, ofx, ogx, outs);
  y_mine, "x", x; y_mine, "dims", dims; y_mine, "opt", opt; y_mine, "best_x", best_x; y_mine, "best_fx", best_fx; y_mine, "best_gx", best_gx; y_mine, "check_eval", check_eval; y_mine, "check_iter", check_iter; y_mine, "type", type; y_mine, "elapsed", elapsed; y_mine, "wall_start", wall_start; y_mine, "wall", wall; y_mine, "task", task; y_mine, "reason", reason; y_mine, "stage", stage; y_mine, "evals", evals; y_mine, "iters", iters; y_mine, "TRUE", TRUE; y_mine, "FALSE", FALSE;
  return e;
}
func y_try_minimize1(x0, o, alg, single, lo, up, maxiter, maxeval, verb, output, &ox, &ofx, &ogx, outs) {
  if (catch(-1)) { if (sim_failed()) error, catch_message; return catch_message; }
  if (outs) ox = opk_minimize(y_min_fg, x0, ofx, ogx, mem=o.mem, nlcg=(alg == 0), blmvm=(alg == 2), flags=o.flags, single=single, lower=lo, upper=up, maxiter=maxiter, maxeval=maxeval, gatol=o.gatol, grtol=o.grtol, delta=o.delta, epsilon=o.epsilon, stpmin=o.stpmin, stpmax=o.stpmax, fmin=o.fmin, verb=verb, output=output);
  else ox = opk_minimize(y_min_fg, x0, mem=o.mem, nlcg=(alg == 0), blmvm=(alg == 2), flags=o.flags, single=single, lower=lo, upper=up, maxiter=maxiter, maxeval=maxeval, gatol=o.gatol, grtol=o.grtol, delta=o.delta, epsilon=o.epsilon, stpmin=o.stpmin, stpmax=o.stpmax, fmin=o.fmin, verb=verb, output=output);
  return [];
}
func y01_minimize(nil) {
  extern yc;
  local form, dims, mask, vals, bad, rlo, rup, x, fx, gx;
  y_dims, form, dims; n = 1; for (i = 2; i <= numberof(dims); ++i) n *= dims(i);
  alg = sim_draw(3); single = y_chance(1, 3); type = (single ? float : double);
  o = y_options(alg, mask, vals, bad);
  lo = up = [];
  if (alg > 0) { lo = y_bound(n, dims, type, 1n, rlo); up = y_bound(n, dims, type, 0n, rup); }
  misuse = 0;
  if (y_chance(1, 25)) { misuse = 1; if (alg == 0) { j = sim_draw(4); if (j == 0 || j == 3) lo = rlo = 0.0; if (j == 1 || j == 3) up = rup = 1.0; if (j == 2) save, o, mem=1 + sim_draw(3); sim_fault, "keywords of another method"; } else { lo = array(double, grow(dims(1)+1, (numberof(dims) > 1 ? dims(2:) : []), 2)); sim_fault, "bounds of other dimensions"; } }
  j = sim_draw(7); t0 = (j == 0 ? type : (j == 1 ? double : (j == 2 ? float : (j == 3 ? long : (j == 4 ? int : (j == 5 ? short : char))))));
  v = y_vec(n, -3.0, 3.0); if (t0 == char) v = abs(v);
  x0 = y_array(t0, dims, t0(v)); x00 = sim_copy(x0);
  maxiter = (y_chance(1, 3) ? sim_draw(12) : []); maxeval = (y_chance(1, 3) ? sim_draw(15) : []);
  if (is_void(maxeval) && (is_void(maxiter) || y_chance(1, 2))) maxeval = 400;
  verb = (maxeval == 0 || y_chance(1, 4) ? (sim_draw(2) ? 0 : []) : 1 + sim_draw(3)); output = ysim_scratch; remove, output;
  k = ((bad || misuse) ? -1 : sim_new(alg, single, n, rlo, rup, mask, vals));
  yc = save(k, alg, n, dims, type, obj=y_new_obj(n), xr=y_flat(type(x0)), f=0.0, g=array(type, dims), best=[], bestf=[], bestg=[], lines=0, stop=[], neval=0, maxiter, maxeval, verb, throw_at=(y_chance(1, 10) ? 1 + sim_draw(12) : 0), bad_at=(y_chance(1, 5) ? 1 + sim_draw(12) : 0), bad=sim_draw(5), inplace=y_chance(1, 2));
  if (k >= 0) {
    xr = yc.xr; t = sim_start(k, xr); save, yc, xr;
    y_check, t == OPK_TASK_COMPUTE_FG, "harness", "the reference does not start";
    if (maxeval == 0) save, yc, stop="too many evaluations", best=xr;
  }
  live = sim_live();
  outs = y_chance(3, 4);
  if (sim_tracing()) y_note, "opk_minimize alg", alg, "single", single, "x0", x0, "lower", lo, "upper", up, "opts", mask, vals, "maxiter", maxiter, "maxeval", maxeval, "ref", k;
  where_to = (y_chance(1, 3) ? open(output, "w") : output);
  e = y_try_minimize(x0, o, alg, single, lo, up, maxiter, maxeval, verb, where_to, x, fx, gx, outs);
  if (!is_string(where_to)) { close, where_to; where_to = []; sim_probe, "output in a stream"; }
  if (sim_tracing()) y_note, "result", (is_void(e) ? "" : e), "x", x, "f", fx, "g", gx, "expected end", yc.stop;
  y_check, sim_same(x0, x00), "x0-changed", "opk_minimize changed the initial variables";
  y_check, sim_live() == live, "leak", "opk_minimize leaked memory";
  if (k < 0) { sim_fault, "invalid options"; y_check, !is_void(e), "misuse", "opk_minimize accepts invalid arguments"; yc = []; return; }
  thrown = yc.throw_at > 0 && yc.neval == yc.throw_at;
  if (thrown || yc.stop == "misuse" || yc.stop == "error") {
    y_check, !is_void(e), "error-lost", "an error was not reported by opk_minimize";
    if (thrown) y_check, strmatch(e, "thrown by the function"), "error-lost", "opk_minimize raised another error than the function: " + e;
    if (yc.stop == "error") y_check, strmatch(e, sim_reason(long(sim_query(k)(2)))), "reason", "opk_minimize does not give the reason of the error but: " + e;
  } else {
    y_check, is_void(e), "unexpected-error", "opk_minimize raised an error: " + (is_void(e) ? "" : e);
    y_check, !is_void(yc.stop), "stopped-early", "opk_minimize returned though the optimization was not finished";
    y_check, structof(x) == type && sim_same(dimsof(x), dims), "type-of-x", "opk_minimize returns variables of another type or other dimensions";
    y_check, sim_same(y_flat(x), y_flat(yc.best)), "result", "opk_minimize returns " + y_str(x) + " instead of the last iterate " + y_str(yc.best) + " (" + yc.stop + ")";
    if (outs && yc.neval > 0) {
      y_check, !is_void(fx) && sim_same(double(fx), yc.bestf), "fx", "FX is " + y_str(fx) + " instead of " + y_str(yc.bestf) + " (" + yc.stop + ")";
      y_check, sim_same(y_flat(gx), y_flat(yc.bestg)), "gx", "GX is not the gradient at the final variables (" + yc.stop + ")";
    }
    sim_probe, yc.stop;
    // what has been written: one line each verb iterations and at the end, and a warning
    f = open(output, "r", 1); s = [];
    if (!is_void(f)) { s = rdline(f, 2000); s = s(where(s)); close, f; }
    warned = (is_void(s) || !numberof(s) ? [] : where(strmatch(s, "WARNING: ")));
    if (yc.stop == "converged") y_check, !numberof(warned), "verbose", "a warning was invented";
    else {
      y_check, numberof(warned) == 1, "verbose", "the warning is missing (" + yc.stop + ")";
      y_check, s(warned(1)) == (verb ? "# " : "") + "WARNING: " + (yc.stop == "warning" ? sim_reason(long(sim_query(k)(2))) : yc.stop), "verbose", "the warning written is: " + s(warned(1));
    }
    if (!verb) y_check, numberof(s) == numberof(warned), "verbose", "something is written though VERB is not set";
    else if (yc.neval > 0) {
      d = s(where(strpart(s, 1:1) != "#")); q = sim_query(k); it = ev = rs = 0; tm = ff = gn = st = 0.0;
      y_check, numberof(d) == yc.lines, "verbose", swrite(format="%d lines written instead of %d", numberof(d), yc.lines);
      y_check, sread(d(0), format="%d %f %d %d %f %f %f", it, tm, ev, rs, ff, gn, st) == 7 || yc.stop != "converged" || yc.bad_at > 0, "verbose", "the last line written is not complete: " + d(0);
      y_check, it == q(3) && ev == q(4), "verbose", "the last line written is not about the final iterate: " + d(0);
    }
  }
  remove, output;
  sim_del, k; yc = [];
  y_check, sim_live() == 0, "leak", "memory remains allocated";
}

/* -------------------------------------------------------------- opk_gqtpar */
func y_try_gqt(A, b, delta, &lam, &f, &it, &st, rtol, atol, maxiter, how, &x) {
  if (catch(-1)) { if (sim_failed()) error, catch_message; return catch_message; }
  if (how == 0) x = opk_gqtpar(A, b, delta, lam, f, it, st, rtol=rtol, atol=atol, maxiter=maxiter);
  else if (how == 1) x = opk_gqtpar(A, b, delta, rtol=rtol, atol=atol, maxiter=maxiter);
  else if (how == 2) x = opk_gqtpar(A, b, delta, lam, rtol=rtol, atol=atol, maxiter=maxiter);
  else if (how == 3) x = opk_gqtpar(A + structof(A)(0), b + structof(b)(0), delta, lam, f, it, st, rtol=rtol, atol=atol, maxiter=maxiter);
  else if (how == 6) x = opk_gqtpar(rtol=rtol, A, b, maxiter=maxiter, delta, lam, f, atol=atol, it, st);
  else if (how == 7) x = opk_gqtpar(rtol=rtol, atol=atol, maxiter=maxiter, A, b, delta, lam, f, it, st);
  else if (how == 8) x = opk_gqtpar(A, maxiter=maxiter, b, rtol=rtol, atol=atol, delta);
  else if (how == 4) { p = &A; x = opk_gqtpar(*p, b, delta, lam, f, it, st, maxiter=maxiter, atol=atol, rtol=rtol); }
  else { h = save(A, b); x = opk_gqtpar(h.A, h.b, delta, lam, f, it, st, maxiter=maxiter, atol=atol, rtol=rtol); }
  return [];
}
func y01_gqtpar(nil) {
  local lam, f, it, st, x;
  n = 1 + sim_draw(5);
  S = array(double, n, n); for (j = 1; j <= n; ++j) for (i = 1; i <= j; ++i) S(i, j) = S(j, i) = y_u(-2.0, 2.0) + (i == j)*y_u(0.0, 4.0);
  b = y_vec(n, -3.0, 3.0);
  ta = sim_draw(4); tb = sim_draw(4); // double float long int
  TA = (ta == 0 ? double : (ta == 1 ? float : (ta == 2 ? long : int))); TB = (tb == 0 ? double : (tb == 1 ? float : (tb == 2 ? long : int)));
  single = ta != 0 && tb != 0;
  S = double(TA(S)); b = TB(b);
  packed = y_chance(1, 3);
  if (packed) { A = array(TA, n*(n+1)/2); k = 0; for (j = 1; j <= n; ++j) for (i = 1; i <= j; ++i) A(++k) = TA(S(i, j)); }
  else { A = TA(S); if (y_chance(1, 2)) { for (j = 1; j < n; ++j) for (i = j + 1; i <= n; ++i) A(i, j) = TA(9); sim_probe, "lower triangle not given"; } }
  scalar = n == 1 && y_chance(1, 2); if (scalar) { A = TA(S(1)); b = b(1); }
  delta = y_u(0.05, 3.0); rtol = (y_chance(1, 2) ? [] : y_u(0.0, 0.3)); atol = (y_chance(1, 2) ? [] : y_u(0.0, 0.1)); maxiter = (y_chance(1, 2) ? [] : 1 + sim_draw(12));
  lam = (y_chance(1, 2) ? [] : (y_chance(1, 3) ? sim_draw(3) : y_u(0.0, 4.0))); lam0 = (is_void(lam) ? 0.0 : double(lam));
  how = sim_draw(9); if (how == 8) how = 1 + 7*sim_draw(2); few = (how == 1 || how == 8); if (few) lam0 = 0.0;
  bad = (y_chance(1, 12) ? 1 + sim_draw(8) : 0);
  if (bad) {
    sim_fault, ["delta is not positive", "negative multiplier", "bad size of A", "bad type of A", "bad type of b", "bad rank of b", "negative tolerance", "maxiter is zero"](bad);
    if (bad == 1) delta = -sim_draw(2)*1.0; else if (bad == 2) { lam = -1.0; if (few) { how = 0; few = 0n; } } else if (bad == 3) A = array(TA, n + 1, n + 2); else if (bad == 4) A = "A"; else if (bad == 5) b = "b"; else if (bad == 6) b = array(TB, 2, 2); else if (bad == 7) rtol = -0.1; else maxiter = 0;
    if (how == 3) how = 0;
  }
  A0 = (bad == 4 ? [] : sim_copy(A)); b0 = (bad == 5 ? [] : sim_copy(b));
  if (sim_tracing()) y_note, "gqtpar n", n, "A", A, "b", b, "delta", delta, "lambda", lam, "rtol", rtol, "atol", atol, "maxiter", maxiter, "how", how;
  f = it = st = []; live = sim_live();
  e = y_try_gqt(A, b, delta, lam, f, it, st, rtol, atol, maxiter, how, x);
  sim_heap;
  y_check, sim_live() == live, "leak", "opk_gqtpar leaked memory";
  if (bad != 4) y_check, sim_same(A, A0), "matrix-changed", "opk_gqtpar changed the matrix A of the caller";
  if (bad != 5) y_check, sim_same(b, b0), "vector-changed", "opk_gqtpar changed the vector b of the caller";
  if (bad) { y_check, !is_void(e), "misuse", "opk_gqtpar accepts invalid arguments"; return; }
  y_check, is_void(e), "unexpected-error", "opk_gqtpar raised an error: " + (is_void(e) ? "" : e);
  r = sim_gqt(S, (scalar ? [double(b)] : double(b)), delta, lam0, (is_void(rtol) ? 5e-2 : rtol), (is_void(atol) ? 1e-8 : atol), (is_void(maxiter) ? 7 : maxiter), single);
  if (sim_tracing()) y_note, "x", x, "lambda", lam, "f", f, "iter", it, "status", st, "expected", r;
  y_check, structof(x) == (single ? float : double) && sim_same(dimsof(x), [1, n]), "type-of-x", "the result of opk_gqtpar has not the expected type and dimensions";
  y_check, sim_same(double(x), r(1:n)), "step", "opk_gqtpar gives " + y_str(x) + " instead of " + y_str(r(1:n));
  if (!few) y_check, sim_same(double(lam), r(n+1)), "multiplier", "the Lagrange multiplier is " + y_str(lam) + " instead of " + y_str(r(n+1));
  if (!few && how != 2) y_check, sim_same(double(f), r(n+2)) && it == r(n+3) && st == r(n+4), "outputs", "f, iter or status are " + y_str(f) + y_str(it) + y_str(st) + " instead of " + y_str(r(n+2:));
  if (!few && how != 2) y_check, is_string(opk_gqtpar_info(st)) && strlen(opk_gqtpar_info(st)) > 0, "info", "no explanation for the status of opk_gqtpar";
  sim_event, x, r;
}
func y01_run(nil) { if (!sim_draw(8)) y_constants, 1, 16; if (!sim_draw(16)) y01_refused; k = sim_draw(8); if (k < 4) y01_lockstep; else if (k < 7) y01_minimize; else y01_gqtpar; }

/* ------------------------------------------------ COBYLA and NEWUOA contexts */
func y_pcreate(w, n, m, rb, re, mf) { return (w ? cobyla_create(n, m, rb, re, 0, mf) : newuoa_create(n, m, rb, re, 0, mf)); }
func y_try_pcreate(w, n, m, rb, re, mf, &ctx) { ctx = []; if (catch(-1)) { if (sim_failed()) error, catch_message; return catch_message; } ctx = y_pcreate(w, n, m, rb, re, mf); return []; }
func y_try_piterate(w, ctx, f, &x, c, how, &st) {
  if (catch(-1)) { if (sim_failed()) error, catch_message; return catch_message; }
  if (!w) st = newuoa_iterate(ctx, f, x); else if (how) st = cobyla_iterate(ctx, f, x); else st = cobyla_iterate(ctx, f, x, c);
  return [];
}
func y_try_bad(k, w, ctx, f, &x, c) {
  if (catch(-1)) { if (sim_failed()) error, catch_message; return catch_message; }
  if (k == 0) { if (w) cobyla_iterate, ctx, f, x + 0.0, c; else newuoa_iterate, ctx, f, x + 0.0; }
  else if (k == 1) { if (w) cobyla_iterate, ctx, f; else newuoa_iterate, ctx, f; }
  else if (k == 2) { if (w) newuoa_iterate, ctx, f, x; else cobyla_iterate, ctx, f, x; }
  else if (k == 3) { if (w) newuoa_restart, ctx; else cobyla_restart, ctx; }
  else if (k == 4) { // names which are not the ones of members, but nearly
    j = sim_draw(12); // a member of the other kind of context is unknown too
    if (j < 6) z = (j < 3 ? (j == 0 ? ctx.unknown : (j == 1 ? ctx.nx : ctx.rh)) : (j == 3 ? ctx.rhox : (j == 4 ? ctx.reasons : ctx.neval)));
    else if (j < 11) z = (j < 9 ? (j == 6 ? ctx.stat : (j == 7 ? ctx.rhobeg : ctx.nevalsx)) : (j == 9 ? ctx.re : ctx.statusx));
    else if (w) z = ctx.npt; else z = ctx.m;
  }
  else if (w) cobyla_iterate, ctx, f, x, c; else newuoa_iterate, ctx, f, x;
  return [];
}
func y_pf(p, u) { t = u - p.c; return 0.5*sum(p.d*t*t) + 0.25*p.q*sum(t^4) + 0.5*p.s*sum(t)^2; }
/* m constraints a.x + b >= 0, or one disk */
func y_new_cons(n, m) { a = array(double, n, max(m, 1)); for (j = 1; j <= m; ++j) a(, j) = y_vec(n, -1.0, 1.0); return save(m, a, b=(m ? y_vec(m, -0.5, 1.0) : []), disk=(y_chance(1, 3) ? y_u(0.5, 4.0) : 0.0)); }
func y_pc(p, u) { if (!p.m) return []; c = array(double, p.m); for (j = 1; j <= p.m; ++j) c(j) = sum(p.a(, j)*u) + p.b(j); if (p.disk) c(1) = p.disk - sum(u*u); return c; }
func y_pslot(nil) {
  local ctx;
  w = sim_draw(2); n = 1 + sim_draw(4); m = (w ? sim_draw(4) : (y_chance(1, 2) ? 2*n + 1 : n + 2 + sim_draw((n + 2)*(n + 1)/2 - n - 1)));
  rb = [0.5, 1.0, 0.1, 0.01](1 + sim_draw(4)); re = rb*[1e-3, 1e-1, 1.0, 1e-6](1 + sim_draw(4)); mf = (w ? 1 + sim_draw(80) : m + 1 + sim_draw(80));
  j = (y_chance(1, 10) ? 1 + sim_draw(7) : 0);
  if (j == 1) n = -sim_draw(2); else if (j == 2) m = -1 - sim_draw(2); else if (j == 3) rb = -1.0; else if (j == 4) re = 0.0; else if (j == 5) re = 2.0*rb; else if (j == 6) mf = -sim_draw(2); else if (j == 7 && !w) m = (sim_draw(2) ? n + 1 : (n + 2)*(n + 1)/2 + 1);
  if (j) sim_fault, "invalid parameters";
  k = sim_pnew(w, n, m, rb, re, mf);
  live = sim_live(); r0 = sim_refused(); if (y_chance(1, 10)) sim_oom, 1 + sim_draw(2);
  sm = sim_draw(2);
  e = y_try_pcreate(w, (sm ? int(n) : n), m, (sm ? float(rb) : rb), re, (sm ? short(mf) : mf), ctx);
  if (sm && rb != double(float(rb))) { sm = 2; }
  sim_oom, 0;
  if (sim_refused() > r0) {
    sim_fault, "allocation failure"; if (sim_tracing()) y_note, "refused", e;
    y_check, !is_void(e) && strmatch(e, "memory"), "oom-unreported", "lack of memory was not reported by the creation but: " + (is_void(e) ? "" : e);
    y_check, sim_live() == live, "oom-leak", "memory was leaked by a creation whose allocation was refused";
    sm = 2;
  }
  if (sm == 2) { ctx = []; e = y_try_pcreate(w, n, m, rb, re, mf, ctx); }
  if (sim_tracing()) y_note, (w ? "COBYLA" : "NEWUOA"), "n", n, "m", m, "rho", rb, re, "maxfun", mf, "ref", k, "error", (is_void(e) ? "none" : e);
  y_check, is_void(e) == (k >= 0), "creation", "creating a context with " + (k >= 0 ? "valid" : "invalid") + " parameters: " + (is_void(e) ? "no error" : e);
  if (k < 0) { y_check, sim_live() == live, "creation-leak", "a refused creation leaked memory"; return []; }
  scalar = n == 1 && y_chance(1, 2);
  x = y_vec(n, -2.0, 2.0); dims = [1, n];
  if (scalar) { x = x(1); dims = [0]; sim_probe, "scalar variables"; } else if (n == 4 && y_chance(1, 2)) { x = reform(x, [2, 2, 2]); dims = [2, 2, 2]; }
  y_check, (w ? COBYLA_ITERATE : NEWUOA_ITERATE) == ctx.status, "initial-status", "the status of a new context is not to iterate";
  s = save(ctx, w, k, n, m, dims, x, xr=y_flat(x), obj=y_new_obj(n), con=y_new_cons(n, (w ? m : 0)), mf);
  y_pmembers, s;
  return s;
}
func y_pmembers(s) {
  q = sim_pquery(s.k); ctx = s.ctx;
  y_check, ctx.n == s.n && (s.w ? ctx.m : ctx.npt) == s.m, "sizes", "the sizes of the problem are not those of the context";
  y_check, ctx.status == q(1) && ctx.nevals == q(2) && sim_same(ctx.rho, q(3)), "members", "status, nevals or rho are not those of the context: " + y_str([double(ctx.status), ctx.nevals, ctx.rho]) + " instead of " + y_str(q);
  r = sim_preason(s.w, long(q(1)));
  y_check, ctx.reason == r && (s.w ? cobyla_reason : newuoa_reason)(ctx.status) == r, "reason", "the reason is not the one of the status of the context";
  sim_event, q;
}
func y_psame(s, x, what) {
  y_check, structof(x) == double && sim_same(dimsof(x), s.dims), "type-of-x", what + " changed the dimensions of the variables or did not convert them";
  y_check, sim_same(y_flat(x), s.xr), "variables", what + " gave the variables " + y_str(x) + " instead of " + y_str(s.xr);
}
func y02_lockstep(nil) {
  local st;
  slots = save(); m = 1 + sim_draw(3); nl = 0;
  for (i = 1; i <= m; ++i) { s = y_pslot(); if (!is_void(s)) { save, slots, string(0), s; ++nl; } }
  if (!nl) { y_check, sim_live() == 0, "leak", "memory remains allocated after refused creations"; return; }
  steps = 3 + sim_draw((y_chance(1, 8) ? 200 : 40));
  for (i = 1; i <= steps; ++i) {
    s = slots(1 + sim_draw(nl)); k = sim_draw(32); ctx = s.ctx; w = s.w;
    if (k < 26 && s.ctx.status != (w ? COBYLA_ITERATE : NEWUOA_ITERATE) && sim_draw(4)) k = 26;
    if (k < 26) {
      x = s.x; if (y_chance(1, 4)) x = sim_copy(x);
      if (y_chance(1, 40)) { x = y_array(double, s.dims, y_vec(s.n, -2.0, 2.0)); t = (sim_draw(2) ? float : long); x = t(x); save, s, xr=double(y_flat(x)); sim_fault, "variables changed and of another type"; }
      f = y_pf(s.obj, double(y_flat(x))); c = y_pc(s.con, double(y_flat(x)));
      if (y_chance(1, 12)) { j = sim_draw(3); if (j == 0) { f = 1e30; sim_fault, "huge value"; } else if (j == 1) { f = y_u(-100.0, 100.0); sim_fault, "wrong value"; } else { f = (1e308*10.0)*0.0; sim_fault, "value is not a number"; } }
      if (s.con.m == 1 && y_chance(1, 2)) c = c(1); else if (s.con.m > 1 && y_chance(1, 8)) c = float(c);
      ff = f; if (y_chance(1, 16)) { ff = float(f); f = double(ff); }
      xr = s.xr; c0 = sim_copy(c); how = !s.con.m && sim_draw(2);
      if (s.con.m) rt = sim_piterate(s.k, xr, f, double(y_flat(c))); else rt = sim_piterate(s.k, xr, f, []);
      e = y_try_piterate(w, ctx, ff, x, c, how, st);
      y_check, is_void(e), "iterate-error", "iterating raised an error: " + (is_void(e) ? "" : e);
      y_check, st == rt, "status", "iterating returned status " + y_str(st) + " instead of " + y_str(rt);
      y_check, sim_same(c, c0), "constraints-changed", "iterating changed the constraints of the caller";
      if (sim_tracing()) y_note, "iterate", "f", f, "c", c, "status", st, "x", x;
      save, s, xr;
      y_psame, s, x, "iterating"; save, s, x; sim_event, x, st; y_pmembers, s;
      if (rt == (w ? COBYLA_SUCCESS : NEWUOA_SUCCESS)) sim_probe, "converged"; else if (rt == (w ? COBYLA_TOO_MANY_EVALUATIONS : NEWUOA_TOO_MANY_EVALUATIONS)) sim_probe, "too many evaluations"; else if (rt != (w ? COBYLA_ITERATE : NEWUOA_ITERATE)) sim_probe, "error state";
    } else if (k < 28) {
      rt = sim_prestart(s.k); st = (w ? cobyla_restart(ctx) : newuoa_restart(ctx)); sim_probe, "restart";
      if (sim_tracing()) y_note, "restart", st;
      y_check, st == rt, "status", "restarting returned status " + y_str(st) + " instead of " + y_str(rt); y_pmembers, s;
    } else if (k < 31) {
      x = sim_copy(s.x); f = 1.0; c = y_pc(s.con, y_flat(x)); j = sim_draw(10); bad = ctx;
      what = ["x is not a variable", "too few arguments", "context of the other algorithm", "restart of the other algorithm", "unknown member", "bad number of variables", "no constraints", "too many constraints", "f is a string", "not a context"](j + 1);
      if (j == 5) x = grow(y_flat(x), 1.0); else if (j == 6) { if (!s.con.m) c = 1.0; else c = []; } else if (j == 7) c = grow(y_flat(c), 1.0); else if (j == 8) f = "f"; else if (j == 9) bad = 1.0;
      if ((j == 6 || j == 7) && !w) { j = 8; f = [f, f]; what = "f is an array"; }
      x0 = sim_copy(x); live = sim_live(); sim_fault, what;
      e = y_try_bad(j, w, bad, f, x, c);
      if (sim_tracing()) y_note, "misuse:", what, (is_void(e) ? "no error" : e);
      y_check, !is_void(e), "misuse", "no error raised: " + what;
      y_check, sim_same(x, x0) && sim_live() == live, "misuse-effect", "a refused call changed its arguments: " + what;
      y_pmembers, s; y_psame, s, s.x, "a refused call";
    } else y_pmembers, s;
    bad = ctx = []; sim_heap;
  }
  while (nl > 0) {
    j = 1 + sim_draw(nl); s = slots(noop(j)); before = sim_live(); sim_pdel, s.k; mid = sim_live();
    y_check, mid < before, "harness", "the reference was not destroyed";
    save, s, ctx=[];
    y_check, sim_live() < mid, "not-destroyed", "dropping the last reference to a context released nothing";
    n = save(); for (i = 1; i <= nl; ++i) if (i != j) save, n, string(0), slots(noop(i)); slots = n; --nl;
  }
  s = [];
  y_check, sim_live() == 0, "leak", "memory remains allocated when all the contexts have been dropped";
}

/* ----------------------------------- {cobyla,newuoa}_{minimize,maximize} */
/* zc: state of the expected run; the reference advances when what is needed at
 * its current variables has been evaluated */
func z_point(x, what) {
  extern zc;
  if (sim_tracing()) y_note, what, "evaluated at", x;
  if (zc.extra < 0) y_check, is_void(zc.stop), "too-many-evaluations", what + " is evaluated after the end of the search: " + (is_void(zc.stop) ? "" : zc.stop);
  y_check, structof(x) == double && sim_same(dimsof(x), zc.dims), "type-of-x", what + " is called with variables of another type or other dimensions";
  y_check, sim_same(y_flat(x), y_flat(zc.x)), "variables", what + " is evaluated at " + y_str(x) + " instead of " + y_str(zc.x);
  sim_event, x;
}
func z_advance(nil) {
  extern zc;
  if (!is_void(zc.stop)) return;
  if (is_void(zc.best) || (zc.sign*zc.f < zc.sign*zc.bestf)) save, zc, best=sim_copy(zc.x), bestf=zc.f;
  u = zc.u; st = sim_piterate(zc.k, u, zc.sign*zc.f, (zc.con.m ? zc.c : []));
  save, zc, u, x=zc.scale*y_array(double, zc.dims, u), havef=0n, havec=0n, nevals=zc.nevals + 1;
  if (st != (zc.w ? COBYLA_ITERATE : NEWUOA_ITERATE)) save, zc, stop=sim_preason(zc.w, st), status=st;
}
func z_f(x) {
  extern zc;
  z_point, x, "the objective function";
  if (!is_void(zc.stop)) { save, zc, extra=zc.extra - 1; return y_pf(zc.obj, y_flat(x)); }
  y_check, !zc.havef, "evaluated-twice", "the objective function is evaluated twice at the same variables";
  save, zc, nf=zc.nf + 1;
  if (zc.nf == zc.throw_at) { sim_fault, "the function raises an error"; save, zc, stop="thrown"; error, "thrown by the function"; }
  f = y_pf(zc.obj, y_flat(x));
  if (zc.nf == zc.bad_at) { if (zc.bad == 0) { f = 1e30*zc.sign; sim_fault, "huge value"; } else if (zc.bad == 1) { f = y_u(-100.0, 100.0); sim_fault, "wrong value"; } else if (zc.bad == 2) { sim_fault, "value is a string"; save, zc, stop="misuse"; return "f"; } }
  if (zc.flt) f = float(f);
  save, zc, f=double(f), havef=1n;
  if (zc.havec || !zc.con.m) z_advance;
  if (zc.scribble) x = 77.0 + 0.0*x;
  return f;
}
func z_c(x) {
  extern zc;
  z_point, x, "the function of the constraints";
  if (!is_void(zc.stop)) return y_pc(zc.con, y_flat(x));
  y_check, !zc.havec, "evaluated-twice", "the constraints are evaluated twice at the same variables";
  save, zc, nc=zc.nc + 1;
  c = y_pc(zc.con, y_flat(x));
  save, zc, c=sim_copy(c), havec=1n;
  if (zc.nc == zc.badc_at && zc.nc > 1) { sim_fault, "other number of constraints"; save, zc, stop="misuse"; return grow(c, 1.0); }
  if (zc.havef) z_advance;
  if (zc.con.m == 1 && zc.flat) return c(1);
  return c;
}
func y_try_pmin(w, mx, nocons, x0, rb, re, scale, npt, mf, all, err, &r) {
  local n, u, ctx, start, constrained, status, fx, cx, fmin, cmin, xmin, fmax, cmax, xmax, x;
  n = u = ctx = start = constrained = status = fx = cx = fmin = cmin = xmin = fmax = cmax = xmax = x = "mine";
  e = y_try_pmin1(w, mx, nocons, x0, rb, re, scale, npt, mf, all, err, r);
  y_mine, "n", n; y_mine, "u", u; y_mine, "ctx", ctx; y_mine, "start", start; y_mine, "constrained", constrained; y_mine, "status", status; y_mine, "fx", fx; y_mine, "cx", cx; y_mine, "fmin", fmin; y_mine, "cmin", cmin; y_mine, "xmin", xmin; y_mine, "fmax", fmax; y_mine, "cmax", cmax; y_mine, "xmax", xmax; y_mine, "x", x;
  return e;
}
func y_try_pmin1(w, mx, nocons, x0, rb, re, scale, npt, mf, all, err, &r) {
  if (catch(-1)) { if (sim_failed()) error, catch_message; return catch_message; }
  if (w) r = (mx ? cobyla_maximize : cobyla_minimize)(z_f, (nocons ? [] : z_c), x0, rb, re, scale, maxfun=mf, all=all, err=err);
  else r = (mx ? newuoa_maximize : newuoa_minimize)(z_f, x0, rb, re, scale, npt=npt, maxfun=mf, all=all, err=err);
  return [];
}
func y02_minimize(nil) {
  extern zc;
  local r;
  w = sim_draw(2); mx = sim_draw(2); n = 1 + sim_draw(4);
  dims = (n == 4 && y_chance(1, 2) ? [2, 2, 2] : (n == 1 && y_chance(1, 2) ? [0] : [1, n]));
  m = (w && y_chance(3, 4) ? 1 + sim_draw(4) : 0);
  j = sim_draw(5); t0 = (j < 2 ? double : (j == 2 ? float : (j == 3 ? long : int)));
  x0 = y_array(t0, dims, t0(y_vec(n, -3.0, 3.0))); x00 = sim_copy(x0);
  rb = [0.5, 1.0, 0.1](1 + sim_draw(3)); re = rb*[1e-3, 1e-1, 1e-5, 1.0](1 + sim_draw(4));
  npt = (w || y_chance(1, 2) ? [] : n + 2 + sim_draw((n + 2)*(n + 1)/2 - n - 1));
  mf = (y_chance(1, 3) ? 1 + sim_draw(60) : []); all = sim_draw(2); 
  err = (y_chance(1, 4) ? [] : (y_chance(1, 3) ? 0 : (y_chance(1, 8) ? 1 : -1)));
  bad = (y_chance(1, 15) ? 1 + sim_draw(5) : 0); scale = []; sc = array(1.0, n);
  if (y_chance(1, 2)) { sc = y_vec(n, 0.1, 4.0); if (y_chance(1, 4)) { sc = double(long(sc + 1.0)); scale = y_array(long, dims, long(sc)); } else scale = y_array(double, dims, sc); }
  if (bad == 1) { scale = y_array(double, dims, sc); if (dims(1)) scale(1) = -sim_draw(2); else scale = -1.0*sim_draw(2); sim_fault, "scale is not positive"; }
  else if (bad == 2) { scale = array(1.0, n + 1); sim_fault, "scale of other dimensions"; }
  else if (bad == 3) { re = 2.0*rb; sim_fault, "invalid radius"; }
  else if (bad == 4 && !w) { npt = n + 1; sim_fault, "invalid number of points"; }
  else if (bad == 5) { mf = 0; sim_fault, "no evaluation allowed"; }
  else if (bad) bad = 0;
  scale0 = sim_copy(scale);
  k = (bad == 1 || bad == 2 ? -1 : sim_pnew(w, n, (w ? m : (is_void(npt) ? 2*n + 1 : npt)), rb, re, (is_void(mf) ? (w ? 50 : 30)*n : mf)));
  scl = y_array(double, dims, sc); x = double(x0);
  zc = save(k, w, sign=(mx ? -1.0 : 1.0), dims, scale=scl, x, u=y_flat(x/scl), obj=y_new_obj(n), con=y_new_cons(n, m), f=0.0, c=[], havef=0n, havec=0n, nf=0, nc=0, nevals=0, best=[], bestf=[], stop=[], status=[], throw_at=(y_chance(1, 12) ? 1 + sim_draw(20) : 0), bad_at=(y_chance(1, 6) ? 1 + sim_draw(12) : 0), bad=sim_draw((y_chance(1, 4) ? 3 : 2)), badc_at=(y_chance(1, 15) ? 1 + sim_draw(12) : 0), flt=y_chance(1, 8), flat=sim_draw(2), scribble=sim_draw(2), extra=(all && m ? 1 : 0));
  if (mx) { t = zc.obj; d = t.d; q = t.q; s = t.s; save, t, d=-d, q=-q, s=-s; }
  live = sim_live();
  if (sim_tracing()) y_note, (w ? "cobyla" : "newuoa"), (mx ? "maximize" : "minimize"), "x0", x0, "m", m, "rho", rb, re, "scale", scale, "npt", npt, "maxfun", mf, "all", all, "err", err, "ref", k;
  pos = sim_outpos();
  e = y_try_pmin(w, mx, !m, x0, rb, re, scale, npt, mf, all, err, r);
  said = sim_outpos() > pos;
  if (sim_tracing()) y_note, "end", (is_void(e) ? "" : e), "expected", zc.stop;
  y_check, sim_live() == live, "leak", "memory was leaked";
  y_check, sim_same(x0, x00) && sim_same(scale, scale0), "arguments-changed", "the initial variables or the scaling of the caller were changed";
  if (k < 0) { sim_fault, "invalid parameters"; y_check, !is_void(e) && zc.nf == 0, "misuse", "invalid arguments are accepted"; zc = []; return; }
  if (zc.stop == "thrown" || zc.stop == "misuse") {
    y_check, !is_void(e) && (zc.stop == "misuse" || strmatch(e, "thrown by the function")), "error-lost", "an error raised by the function is lost";
  } else {
    y_check, !is_void(zc.stop), "stopped-early", "the search was stopped before its end: " + (is_void(e) ? "" : e);
    st = zc.status; ok = st == (w ? COBYLA_SUCCESS : NEWUOA_SUCCESS);
    nonfatal = (w ? anyof(st == [COBYLA_ROUNDING_ERRORS, COBYLA_TOO_MANY_EVALUATIONS]) : anyof(st == [NEWUOA_ROUNDING_ERRORS, NEWUOA_TOO_MANY_EVALUATIONS, NEWUOA_STEP_FAILED]));
    sim_probe, zc.stop;
    y_check, said == (!ok && nonfatal && !is_void(err) && err > 0), "printed", (said ? "something is printed which is not a warning asked for" : "no warning is printed");
    if (!ok && (!err || !nonfatal)) { y_check, !is_void(e) && strmatch(e, zc.stop), "reason", "the end of the search is not reported: " + zc.stop + " but: " + (is_void(e) ? "" : e); }
    else {
      y_check, is_void(e), "unexpected-error", "an error is raised: " + (is_void(e) ? "" : e);
      if (!all) y_check, sim_same(r, zc.x), "result", "the result is " + y_str(r) + " instead of " + y_str(zc.x) + " (" + zc.stop + ")";
      else {
        fb = (mx ? r.fmax : r.fmin); xb = (mx ? r.xmax : r.xmin); q = sim_pquery(k);
        y_check, r.nevals == zc.nevals && r.status == st && sim_same(r.rho, q(3)*zc.scale), "outputs", "nevals, status or rho are not those of the search";
        if (m) {
          cb = (mx ? r.cmax : r.cmin);
          y_check, sim_same(xb, zc.x), "best", "with constraints, the best variables are " + y_str(xb) + " instead of the solution " + y_str(zc.x) + " (" + zc.stop + ")";
          y_check, sim_same(double(fb), y_pf(zc.obj, y_flat(xb))) && sim_same(y_flat(cb), y_pc(zc.con, y_flat(xb))), "best", "the best value or its constraints are not those at the best variables";
        } else y_check, sim_same(double(fb), zc.bestf) && sim_same(xb, zc.best), "best", "the best value is " + y_str(fb) + " at " + y_str(xb) + " instead of " + y_str(zc.bestf) + " at " + y_str(zc.best);
      }
    }
  }
  sim_pdel, k; zc = [];
  y_check, sim_live() == 0, "leak", "memory remains allocated";
}
/* cobyla_error and newuoa_error */
func y_try_error(w, st, err, how) {
  if (catch(-1)) { if (sim_failed()) error, catch_message; return catch_message; }
  if (how) { if (w) cobyla_error, st; else newuoa_error, st; } else if (w) cobyla_error, st, err; else newuoa_error, st, err;
  return [];
}
func y02_errors(nil) {
  m = 1 + sim_draw(6);
  for (i = 1; i <= m; ++i) {
    w = sim_draw(2); err = [0, 0, 1, -1, 2, -3](1 + sim_draw(6)); how = (err == 0 && sim_draw(2)); if (!err && !how && sim_draw(2)) err = [];
    st = (w ? [COBYLA_SUCCESS, COBYLA_BAD_NVARS, COBYLA_BAD_NCONS, COBYLA_BAD_RHO_RANGE, COBYLA_BAD_SCALING, COBYLA_ROUNDING_ERRORS, COBYLA_TOO_MANY_EVALUATIONS, COBYLA_BAD_ADDRESS, COBYLA_CORRUPTED, COBYLA_TOO_MANY_EVALUATIONS](1 + sim_draw(10)) :
          [NEWUOA_SUCCESS, NEWUOA_BAD_NVARS, NEWUOA_BAD_NPT, NEWUOA_BAD_RHO_RANGE, NEWUOA_BAD_SCALING, NEWUOA_ROUNDING_ERRORS, NEWUOA_TOO_MANY_EVALUATIONS, NEWUOA_STEP_FAILED, NEWUOA_BAD_ADDRESS, NEWUOA_CORRUPTED](1 + sim_draw(10)));
    ok = st == (w ? COBYLA_SUCCESS : NEWUOA_SUCCESS);
    nonfatal = (w ? anyof(st == [COBYLA_ROUNDING_ERRORS, COBYLA_TOO_MANY_EVALUATIONS]) : anyof(st == [NEWUOA_ROUNDING_ERRORS, NEWUOA_TOO_MANY_EVALUATIONS, NEWUOA_STEP_FAILED]));
    pos = sim_outpos(); e = y_try_error(w, st, err, how); said = sim_outpos() > pos;
    if (sim_tracing()) y_note, (w ? "cobyla_error" : "newuoa_error"), st, "err", err, "error", (is_void(e) ? "none" : e), "printed", said;
    sim_probe, "error function"; sim_event, w, st, said;
    y_check, is_void(e) == (ok || (err && nonfatal)), "error-function", (w ? "cobyla_error" : "newuoa_error") + swrite(format=": status %d is %s", st, (is_void(e) ? "not reported by an error" : "reported by an error"));
    y_check, is_void(e) || strmatch(e, sim_preason(w, st)), "error-function", "the error does not tell the reason";
    y_check, said == (!ok && nonfatal && !is_void(err) && err > 0), "error-function", (said ? "a warning was not wanted" : "no warning");
  }
}
func y_bad_pcall(k, w) {
  if (catch(-1)) { if (sim_failed()) error, catch_message; return catch_message; }
  x = [1.0, 2.0];
  if (w) {
    if (k == 0) a = cobyla_create(2, 1, 1.0, 0.1, 0); else if (k == 1) a = cobyla_create(2, 1, 1.0, 0.1, 0, 100, 1); else if (k == 2) a = cobyla_create("2", 1, 1.0, 0.1, 0, 100); else if (k == 3) a = cobyla_create(2, 1, [1.0, 2.0], 0.1, 0, 100);
    else if (k == 4) a = cobyla_create(2, -1, 1.0, 0.1, 0, 100); else if (k == 5) a = cobyla_create(0, 1, 1.0, 0.1, 0, 100); else if (k == 6) a = cobyla_create(2, 1, 0.1, 1.0, 0, 100); else if (k == 7) a = cobyla_create(2, 1, 1.0, -0.1, 0, 100); else if (k == 8) a = cobyla_create(2, 1, 1.0, 0.1, 0, 0);
    else if (k == 9) a = cobyla_restart(); else if (k == 10) a = cobyla_restart(1); else if (k == 11) a = cobyla_reason("a"); else if (k == 12) a = cobyla_reason(); else if (k == 13) a = cobyla_iterate(cobyla_create(2, 0, 1.0, 0.1, 0, 100), 1.0);
    else a = cobyla_iterate(cobyla_create(2, 0, 1.0, 0.1, 0, 100), 1.0, x, [], 1);
  } else {
    if (k == 0) a = newuoa_create(2, 5, 1.0, 0.1, 0); else if (k == 1) a = newuoa_create(2, 5, 1.0, 0.1, 0, 100, 1); else if (k == 2) a = newuoa_create(2, "5", 1.0, 0.1, 0, 100); else if (k == 3) a = newuoa_create(2, 5, 1.0, [0.1, 0.2], 0, 100);
    else if (k == 4) a = newuoa_create(2, 3, 1.0, 0.1, 0, 100); else if (k == 5) a = newuoa_create(1, 3, 1.0, 0.1, 0, 100); else if (k == 6) a = newuoa_create(2, 5, 0.1, 1.0, 0, 100); else if (k == 7) a = newuoa_create(2, 7, 1.0, 0.1, 0, 100); else if (k == 8) a = newuoa_create(2, 5, 1.0, 0.1, 0, 0);
    else if (k == 9) a = newuoa_restart(); else if (k == 10) a = newuoa_restart(1); else if (k == 11) a = newuoa_reason("a"); else if (k == 12) a = newuoa_reason(); else if (k == 13) a = newuoa_iterate(newuoa_create(2, 5, 1.0, 0.1, 0, 100), 1.0);
    else a = newuoa_iterate(newuoa_create(2, 5, 1.0, 0.1, 0, 100), 1.0, x, 1);
  }
  return [];
}
func y02_refused(nil) {
  m = 1 + sim_draw(4);
  for (i = 1; i <= m; ++i) {
    k = sim_draw(15); w = sim_draw(2); live = sim_live();
    e = y_bad_pcall(k, w); sim_fault, "refused call";
    if (sim_tracing()) y_note, "refused call", k, w, (is_void(e) ? "no error" : e);
    y_check, !is_void(e), "misuse", swrite(format="invalid arguments are accepted (case %d, %s)", k, (w ? "cobyla" : "newuoa"));
    y_check, sim_live() == live, "creation-leak", swrite(format="a refused call leaked memory (case %d, %s)", k, (w ? "cobyla" : "newuoa"));
    sim_event, k, w;
  }
}
func y02_run(nil) { if (!sim_draw(16)) y02_refused; if (!sim_draw(32)) y02_errors; if (!sim_draw(8)) y_constants, 17, numberof(y_names); if (sim_draw(2)) y02_lockstep; else y02_minimize; }

/* -------------------------------------------------------------- main loop */
func ysim_one(prop) {
  if (ysim_debug) { if (prop == "Y01") y01_run; else y02_run; return; }
  if (catch(-1)) { if (!sim_failed()) sim_mark, "unexpected-error", catch_message; return; }
  if (prop == "Y01") y01_run; else y02_run;
  sim_heap;
  y_check, sim_live() == 0, "leak", "memory remains allocated at the end of the run";
}
func ysim_seed(seed, i) { return (seed*1000003 + i*2 + 1); }
func ysim_main(prop, seed, first, step, nruns, tmax, out) {
  extern ysim_scratch;
  ysim_scratch = out + ".scratch";
  el = array(double, 3); timer, el; t0 = el(3); done = rep = differ = 0;
  for (i = first; i < nruns; i += step) {
    if (!(i/step % 16)) { timer, el; if (el(3) - t0 > tmax) break; }
    sim_progress, out + ".run", i;
    sim_begin, ysim_seed(seed, i), [];
    sim_forget; sim_pforget;
    ysim_one, prop; ++done;
    if (sim_failed()) { sim_result, out + ".bad"; break; }
    sim_log, out + ".hash"; h = sim_hash();
    if (!(i/step % 61)) { sim_begin, ysim_seed(seed, i), []; sim_forget; sim_pforget; ysim_one, prop; ++rep; if (sim_failed() || sim_hash() != h) { ++differ; sim_mark, "not-repeatable", "the same seed gave two executions"; sim_result, out + ".bad"; break; } }
  }
  timer, el;
  sim_counts, out + ".counts";
  f = open(out + ".done", "w"); write, f, format="%d %d %d %.3f\n", done, rep, differ, el(3) - t0; close, f;
}
/* one run from a replay file */
func ysim_replay(prop, seed, file, out) {
  extern ysim_scratch;
  ysim_scratch = out + ".scratch";
  sim_begin, seed, file; sim_forget; sim_pforget;
  ysim_one, prop;
  sim_result, out;
}
