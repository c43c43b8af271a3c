// Functions the executor implements itself.
#define BI(name) static bool name(Exec& X, State& s, DInst& in, std::vector<Val>& a, Val& ret)

// address of a message or name: any value the model allows will do
static uint64_t PA(Exec&, State& s, const Val& v) { return v.e ? (uint64_t)evalExpr(v.e, *s.model) : v.c; }

static std::map<std::pair<uint32_t, unsigned>, uint32_t> gSymIds;
static uint32_t symId(uint32_t ord, unsigned w) { auto& r = gSymIds[{ord, w}]; if (!r) r = (uint32_t)gSymIds.size(); return r - 1; }
static E newSym(State& s, const std::string& name, unsigned w)
{
  uint32_t sid = symId(s.nsym++, w); s.inputs.push_back({name, sid, (uint16_t)w}); return mkSym(sid, w);
}
BI(b_sym)
{
  E e = newSym(s, X.cstr(s, PA(X, s, a[0])), (unsigned)a[1].c); ret = mkVal(mkZext(e, 64)); return true;
}
BI(b_make_symbolic)
{
  uint64_t n = a[1].c; std::string nm = X.cstr(s, PA(X, s, a[2])); Obj* o = X.check(s, a[0].c, n, true, "write (make symbolic)");
  for (uint64_t i = 0; i < n; i++) { E e = newSym(s, nm + "[" + std::to_string(i) + "]", 8); X.storeRaw(o, X.offOf(a[0].c) + i, 8, Val(e, 0)); }
  return true;
}
static E condOf(const Val& v) { return v.e ? (v.e->w == 1 ? v.e : mkNot(mkBin(E_EQ, v.e, mkConst(0, v.e->w)))) : mkConst(v.c != 0, 1); }
BI(b_assume)
{
  E c = condOf(a[0]); if (isTrue(c)) return true; if (isFalse(c)) throw PathEnd{2};
  if (!evalExpr(c, *s.model))
  { Model m; SatRes r = X.query(s, c, m); if (r == UNSAT) throw PathEnd{2}; if (r == UNKNOWN) X.inconclusive("solver returned unknown"); X.setModel(s, std::move(m)); }
  X.addPC(s, c); return true;
}
BI(b_assert)
{
  X.asserts++; E c = condOf(a[0]); if (isTrue(c)) return true; std::string msg = X.cstr(s, PA(X, s, a[1]));
  if (isFalse(c)) X.error(s, "assert", msg);
  X.assertQueries++; Model m; SatRes r = X.query(s, mkNot(c), m);
  if (r == UNKNOWN) { X.incReasons.insert("solver returned unknown on an assertion"); X.pathsInc++; return true; }
  if (r == SAT)
  {
    X.report(s, "assert", msg, m);
    if (!evalExpr(c, *s.model)) { Model m2; if (X.query(s, c, m2) != SAT) throw PathEnd{1}; X.setModel(s, std::move(m2)); }
    X.addPC(s, c);
  }
  return true;
}
BI(b_fail) { X.asserts++; X.error(s, "assert", X.cstr(s, PA(X, s, a[0]))); }
BI(b_error) { X.error(s, X.cstr(s, PA(X, s, a[0])), X.cstr(s, PA(X, s, a[1]))); }
BI(b_reach) { X.reached.insert(X.cstr(s, X.concretize(s, a[0], 64))); return true; }
BI(b_note) { s.notes.push_back(strdup(X.cstr(s, PA(X, s, a[0])).c_str())); if (X.verbose) fprintf(stderr, "note: %s\n", s.notes.back()); return true; }
BI(b_note_int) { char b[300]; snprintf(b, 300, "%s %lld%s", X.cstr(s, PA(X, s, a[0])).c_str(), (long long)(a[1].e ? evalExpr(a[1].e, *s.model) : a[1].c), a[1].e ? " (sym)" : ""); s.notes.push_back(strdup(b)); if (X.verbose) fprintf(stderr, "note: %s\n", b); return true; }
BI(b_prune) { throw PathEnd{2}; }
BI(b_done) { throw PathEnd{0}; }
BI(b_inconclusive) { X.inconclusive(X.cstr(s, PA(X, s, a[0]))); }
BI(b_concretize) { uint64_t v = X.concretize(s, a[0], in.argw[0]); ret = Val(v); return true; }
BI(b_is_symbolic) { ret = Val(a[0].e ? 1 : 0); return true; }
BI(b_one) { ret = Val(1); return true; }
BI(b_zero) { ret = Val(0); return true; }
BI(b_curfib) { ret = Val((uint64_t)s.cur); return true; }
BI(b_steps) { ret = Val(s.steps); return true; }
BI(b_abort) { X.error(s, "abort", "abort called"); }
BI(b_terminate) { X.error(s, "abort", "std::terminate called"); }
BI(b_assert_fail) { X.error(s, "abort", "assertion failed: " + X.cstr(s, PA(X, s, a[0]))); }
BI(b_pure) { X.error(s, "abort", "pure virtual function called"); }
BI(b_exit) { throw PathEnd{0}; }

static uint64_t doAlloc(Exec& X, State& s, uint64_t n)
{
  if (n > (1u << 26)) X.error(s, "memory", "allocation of more than 64 MB");
  uint32_t id = s.mem.alloc(n, K_HEAP); memset(s.mem.get(id)->d, 0xA5, n); return mkAddr(id);
}
BI(b_malloc) { uint64_t n = X.concretize(s, a[0], 64); ret = Val(doAlloc(X, s, n)); return true; }
BI(b_calloc) { uint64_t n = X.concretize(s, a[0], 64), k = X.concretize(s, a[1], 64); uint64_t p = doAlloc(X, s, n * k); memset(s.mem.get(p >> 32)->d, 0, n * k); ret = Val(p); return true; }
static void doFree(Exec& X, State& s, uint64_t p, DInst& in)
{
  if (!p) return; uint32_t id = p >> 32; Obj* o = s.mem.get(id);
  if (!o) X.error(s, "memory", "free of invalid pointer");
  if (o == FREED) X.error(s, "memory", "double free");
  if (o->kind != K_HEAP || X.offOf(p) != 0) X.error(s, "memory", "free of a pointer that was not allocated");
  if (s.raceOn) X.raceAccess(s, p, o->size, true, in);
  s.mem.free(id);
}
BI(b_free) { uint64_t p = X.concretize(s, a[0], 64); doFree(X, s, p, in); return true; }
BI(b_realloc)
{
  uint64_t p = X.concretize(s, a[0], 64), n = X.concretize(s, a[1], 64); uint64_t q = doAlloc(X, s, n);
  if (p) { Obj* o = X.check(s, p, 0, false, "realloc"); X.copyMem(s, q, p, std::min<uint64_t>(n, o->size)); doFree(X, s, p, in); }
  ret = Val(q); return true;
}
BI(b_memcpy) { uint64_t n = X.concretize(s, a[2], 64); uint64_t d = X.concretize(s, a[0], 64), sr = X.concretize(s, a[1], 64);
  if (s.raceOn && n) { X.raceAccess(s, sr, n, false, in); X.raceAccess(s, d, n, true, in); } X.copyMem(s, d, sr, n); ret = Val(d); return true; }
BI(b_memset)
{
  uint64_t n = X.concretize(s, a[2], 64); uint64_t d = X.concretize(s, a[0], 64); ret = Val(d); if (!n) return true;
  if (s.raceOn) X.raceAccess(s, d, n, true, in);
  Obj* o = X.check(s, d, n, true, "write (fill)"); uint32_t off = X.offOf(d); Val v = a[1].e ? mkVal(mkExtract(a[1].e, 0, 8)) : Val(a[1].c & 255);
  if (!v.e) { memset(o->d + off, (int)v.c, n); if (o->s) memset(o->s + off, 0, n * sizeof(E)); } else for (uint64_t i = 0; i < n; i++) X.storeRaw(o, off + i, 8, v);
  return true;
}
BI(b_memcmp)
{
  uint64_t n = X.concretize(s, a[2], 64); uint64_t p = X.concretize(s, a[0], 64), q = X.concretize(s, a[1], 64); if (!n) { ret = Val(0); return true; }
  Obj* x = X.check(s, p, n, false, "read (compare)"); Obj* y = X.check(s, q, n, false, "read (compare)"); uint32_t i0 = X.offOf(p), j0 = X.offOf(q);
  if (s.raceOn) { X.raceAccess(s, p, n, false, in); X.raceAccess(s, q, n, false, in); x = s.mem.get(p >> 32); y = s.mem.get(q >> 32); }
  if (!x->s && !y->s) { int r = memcmp(x->d + i0, y->d + j0, n); ret = Val((uint64_t)(uint32_t)(r < 0 ? -1 : r > 0 ? 1 : 0)); return true; }
  E r = mkConst(0, 32);
  for (int64_t i = (int64_t)n - 1; i >= 0; i--)
  {
    E u = toE(X.loadRaw(x, i0 + i, 8), 8), v = toE(X.loadRaw(y, j0 + i, 8), 8);
    r = mkIte(mkBin(E_EQ, u, v), r, mkIte(mkBin(E_ULT, u, v), mkConst(0xffffffff, 32), mkConst(1, 32)));
  }
  ret = mkVal(r); return true;
}
BI(b_bcmp)
{
  uint64_t n = X.concretize(s, a[2], 64); uint64_t p = X.concretize(s, a[0], 64), q = X.concretize(s, a[1], 64); if (!n) { ret = Val(0); return true; }
  Obj* x = X.check(s, p, n, false, "read (compare)"); Obj* y = X.check(s, q, n, false, "read (compare)"); uint32_t i0 = X.offOf(p), j0 = X.offOf(q);
  if (s.raceOn) { X.raceAccess(s, p, n, false, in); X.raceAccess(s, q, n, false, in); x = s.mem.get(p >> 32); y = s.mem.get(q >> 32); }
  if (!x->s && !y->s) { ret = Val(memcmp(x->d + i0, y->d + j0, n) ? 1 : 0); return true; }
  E r = mkConst(1, 1);
  for (uint64_t i = 0; i < n && !isFalse(r); i++) r = mkBin(E_AND, r, mkBin(E_EQ, toE(X.loadRaw(x, i0 + i, 8), 8), toE(X.loadRaw(y, j0 + i, 8), 8)));
  ret = mkVal(mkZext(mkNot(r), 32)); return true;
}
BI(b_throw) { X.unwind(s, a[0].c); return false; }
BI(b_dyncast)
{
  uint64_t p = X.concretize(s, a[0], 64), dst = a[2].c; if (!p) { ret = Val(0); return true; }
  uint64_t vptr = X.load(s, Val(p), 64).c; uint64_t ti = X.load(s, Val(vptr - 8), 64).c; int64_t top = (int64_t)X.load(s, Val(vptr - 16), 64).c;
  uint64_t full = p + top; int64_t o = X.baseOffset(ti, dst); ret = o < 0 ? Val(0) : Val(full + o); return true;
}
BI(b_fiber_new)
{
  auto it = X.fByAddr.find(a[0].c); if (it == X.fByAddr.end()) X.error(s, "memory", "thread start through invalid function pointer");
  DFunc* d = it->second; if (!d->decoded) X.decode(d); d->executed = true;
  Frame* n = new Frame; n->f = d; n->regs.resize(d->nslots); n->call = nullptr; if (!d->argSlot.empty()) n->regs[d->argSlot[0]] = a[1];
  int id = 1; while (id < (int)s.fib.size() && !s.fib[id].st.empty()) ++id; // the place of a thread that was joined is used again
  if (id >= (int)s.fib.size()) s.fib.emplace_back();
  s.fib[id].st.push_back(n); ret = Val(id);
  for (auto it = s.tls.begin(); it != s.tls.end();) if (it->first.second == id) it = s.tls.erase(it); else ++it;
  if (s.raceOn && s.cur < 8 && id < 8) { if (s.tvc.size() < s.fib.size()) s.tvc.resize(s.fib.size()); s.tvc[id].join(s.tvc[s.cur]); s.tvc[id].c[id]++; s.tvc[s.cur].c[s.cur]++; }
  return true;
}
BI(b_fiber_switch)
{
  uint64_t t = X.concretize(s, a[0], 32); if (t >= s.fib.size()) X.error(s, "memory", "switch to unknown thread");
  X.finishCall(s, in, Val(0)); s.cur = (int)t; return false;
}
BI(b_fiber_free)
{
  uint64_t t = a[0].c; if (t < s.fib.size() && (int)t != s.cur) { for (auto x : s.fib[t].st) if (--x->ref == 0) delete x; s.fib[t].st.clear(); }
  return true;
}
BI(b_race_on) { if (X.raceCheck) { s.raceOn = true; s.tvc.resize(s.fib.size()); s.tvc[s.cur].c[s.cur] = 1; } return true; }
BI(b_race_set) { ret = Val(s.raceOn ? 1 : 0); if (X.raceCheck) s.raceOn = a[0].c & 0xffffffffu; return true; }
BI(b_race_off) { s.raceOn = false; return true; }
BI(b_hb_acq) { if (s.raceOn && !a[0].e) X.hbAcquire(s, a[0].c); return true; }
BI(b_hb_rel) { if (s.raceOn && !a[0].e) X.hbRelease(s, a[0].c); return true; }
BI(b_hb_join) { if (s.raceOn && a[0].c < s.tvc.size()) s.tvc[s.cur].join(s.tvc[a[0].c]); return true; }
BI(b_lround) { unsigned fw = in.argw[0]; Val t = fpop(E_FROUND, a[0], nullptr, fw, fw, 0); ret = fpop(E_FPTOSI, t, nullptr, 64, fw); return true; }
BI(b_round) { unsigned fw = in.argw[0]; ret = fpop(E_FROUND, a[0], nullptr, fw, fw, 0); return true; }
BI(b_floor) { unsigned fw = in.argw[0]; ret = fpop(E_FROUND, a[0], nullptr, fw, fw, 1); return true; }
BI(b_ceil) { unsigned fw = in.argw[0]; ret = fpop(E_FROUND, a[0], nullptr, fw, fw, 2); return true; }
BI(b_truncf) { unsigned fw = in.argw[0]; ret = fpop(E_FROUND, a[0], nullptr, fw, fw, 3); return true; }
BI(b_fmod) { unsigned fw = in.argw[0]; ret = fpop(E_FREM, a[0], &a[1], fw, fw); return true; }
BI(b_snprintf_d) // vp_fmt_double(buf, n, fmt, double): concrete only
{
  uint64_t bits = X.concretize(s, a[3], 64); double d; memcpy(&d, &bits, 8); char buf[400]; std::string f = X.cstr(s, PA(X, s, a[2])); int n = snprintf(buf, sizeof buf, f.c_str(), d);
  Obj* o = X.check(s, a[0].c, a[1].c, true, "write"); uint32_t off = X.offOf(a[0].c); uint64_t k = std::min<uint64_t>(n + 1, a[1].c);
  for (uint64_t i = 0; i < k; i++) X.storeRaw(o, off + i, 8, Val((uint64_t)(uint8_t)(i + 1 == k ? 0 : buf[i]))); ret = Val((uint64_t)(uint32_t)n); return true;
}
BI(b_snprintf) // numbers and texts are made concrete
{
  std::string f = X.cstr(s, PA(X, s, a[2])), r; size_t k = 3;
  for (size_t i = 0; i < f.size(); i++)
  {
    if (f[i] != '%') { r += f[i]; continue; }
    if (i + 1 < f.size() && f[i + 1] == '%') { r += '%'; i++; continue; }
    std::string sp = "%"; int longs = 0; i++;
    while (i < f.size() && strchr("-+ #0123456789.", f[i])) sp += f[i++];
    while (i < f.size() && strchr("lzhjt", f[i])) { longs += f[i] == 'h' ? -1 : f[i] == 'l' ? 1 : 2; i++; }
    if (i >= f.size() || k >= a.size()) X.inconclusive("snprintf: " + f);
    char buf[500]; unsigned w = in.argw[k]; uint64_t v = X.concretize(s, a[k], w); k++;
    if (strchr("di", f[i])) { long long n = longs > 0 ? (long long)v : longs == -1 ? (short)v : longs < -1 ? (signed char)v : (int)v; snprintf(buf, sizeof buf, (sp + "ll" + f[i]).c_str(), n); }
    else if (strchr("uxXo", f[i])) { unsigned long long n = longs > 0 ? v : longs == -1 ? (uint16_t)v : longs < -1 ? (uint8_t)v : (uint32_t)v; snprintf(buf, sizeof buf, (sp + "ll" + f[i]).c_str(), n); }
    else if (f[i] == 'c') snprintf(buf, sizeof buf, (sp + "c").c_str(), (int)v);
    else if (f[i] == 's') { r += X.cstr(s, v); continue; }
    else if (strchr("fFeEgGaA", f[i])) { double d; memcpy(&d, &v, 8); snprintf(buf, sizeof buf, (sp + f[i]).c_str(), d); }
    else X.inconclusive("snprintf: " + f);
    r += buf;
  }
  uint64_t n = X.concretize(s, a[1], 64);
  if (n) { uint64_t m = std::min<uint64_t>(r.size() + 1, n); Obj* o = X.check(s, a[0].c, m, true, "write"); uint32_t off = X.offOf(a[0].c); for (uint64_t i = 0; i < m; i++) X.storeRaw(o, off + i, 8, Val((uint64_t)(uint8_t)(i + 1 == m ? 0 : r[i]))); }
  ret = Val((uint64_t)(uint32_t)r.size()); return true;
}
BI(b_vsnprintf) // only std::to_string(double) gets here: the digits of numbers in messages are not modelled
{
  static const char t[] = "0.000000"; if (a[1].e || a[1].c < sizeof t) X.inconclusive("vsnprintf into a short buffer"); Obj* o = X.check(s, a[0].c, sizeof t, true, "write"); uint32_t off = X.offOf(a[0].c);
  for (size_t i = 0; i < sizeof t; i++) X.storeRaw(o, off + i, 8, Val((uint64_t)(uint8_t)t[i])); ret = Val(sizeof t - 1); return true;
}
BI(b_strtod_c) // vp_strtod(const char*, int* used): concrete text only
{
  std::string t; uint64_t p = a[0].c; while (true) { Val c = X.load(s, Val(p), 8); uint64_t v = X.concretize(s, c, 8); if (!v) break; t += (char)v; p++; if (t.size() > 64) break; }
  char* e; double d = strtod(t.c_str(), &e); uint64_t b; memcpy(&b, &d, 8); X.store(s, a[1], 32, Val((uint64_t)(e - t.c_str()))); X.store(s, a[2], 32, Val(std::isinf(d) && t.find_first_of("iI") == std::string::npos ? 1 : 0)); ret = Val(b); return true;
}

static void registerBuiltins(Exec& X)
{
  auto& B = X.builtins;
  B["vp_sym"] = b_sym; B["vp_make_symbolic"] = b_make_symbolic; B["vp_assume"] = b_assume; B["vp_assert"] = b_assert; B["vp_fail"] = b_fail; B["vp_error"] = b_error; B["vp_reach"] = b_reach;
  B["vp_note"] = b_note; B["vp_note_int"] = b_note_int; B["vp_prune"] = b_prune; B["vp_done"] = b_done; B["vp_inconclusive"] = b_inconclusive; B["vp_concretize"] = b_concretize; B["vp_is_symbolic"] = b_is_symbolic; B["vp_symbolic_mode"] = b_one; B["vp_steps"] = b_steps;
  B["vp_current_fiber"] = b_curfib; B["vp_terminate"] = b_terminate; B["abort"] = b_abort; B["_ZSt9terminatev"] = b_terminate; B["__assert_fail"] = b_assert_fail; B["__cxa_pure_virtual"] = b_pure; B["exit"] = b_exit; B["_exit"] = b_exit; B["__cxa_atexit"] = b_zero; B["__cxa_thread_atexit"] = b_zero;
  for (auto n : {"malloc", "_Znwm", "_Znam", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t"}) B[n] = b_malloc;
  for (auto n : {"_ZnwmSt11align_val_t", "_ZnamSt11align_val_t"}) B[n] = b_malloc;
  for (auto n : {"free", "_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdaPvSt11align_val_t", "_ZdlPvRKSt9nothrow_t"}) B[n] = b_free;
  B["calloc"] = b_calloc; B["realloc"] = b_realloc; B["memcpy"] = b_memcpy; B["memmove"] = b_memcpy; B["memset"] = b_memset; B["memcmp"] = b_memcmp; B["bcmp"] = b_bcmp;
  B["vp_throw"] = b_throw; B["__dynamic_cast"] = b_dyncast; B["vp_fiber_new"] = b_fiber_new; B["vp_fiber_switch"] = b_fiber_switch; B["vp_fiber_free"] = b_fiber_free;
  B["vp_race_on"] = b_race_on; B["vp_race_off"] = b_race_off; B["vp_race_set"] = b_race_set; B["vp_hb_acquire"] = b_hb_acq; B["vp_hb_release"] = b_hb_rel; B["vp_hb_join"] = b_hb_join;
  for (auto n : {"lround", "llround", "lroundf", "llroundf"}) B[n] = b_lround;
  B["round"] = b_round; B["roundf"] = b_round; B["floor"] = b_floor; B["ceil"] = b_ceil; B["trunc"] = b_truncf; B["fmod"] = b_fmod; B["vp_fmt_double"] = b_snprintf_d; B["vsnprintf"] = b_vsnprintf; B["snprintf"] = b_snprintf; B["vp_strtod_c"] = b_strtod_c;
}
