// Instantiation unit: thin entry points over Pire's public API, so that the analyses see every
// scanner's templates instantiated.  Nothing here is ever executed.
#include <pire/pire.h>
#include <pire/extra.h>
#include <pire/easy.h>
#include <pire/any.h>
#include <pire/vbitset.h>
#include <pire/scanners/half_final.h>
#include <pire/scanners/pair.h>
#include <pire/stub/memstreams.h>
#include <new>
#include <utility>
using namespace Pire;
#define ENTRY extern "C" __attribute__((used))

// ---- scanners: lifecycle -------------------------------------------------------------------
#define LIFE(N, T) \
  ENTRY void e_##N##_copy(T* d, const T* s) { new (d) T(*s); } \
  ENTRY void e_##N##_move(T* d, T* s) { new (d) T(std::move(*s)); } \
  ENTRY void e_##N##_swap(T* a, T* b) { a->Swap(*b); } \
  ENTRY void e_##N##_default(T* d) { new (d) T(); } \
  ENTRY void e_##N##_dtor(T* d) { d->~T(); }
#define ASSIGN(N, T) \
  ENTRY void e_##N##_assign(T* d, const T* s) { *d = *s; } \
  ENTRY void e_##N##_massign(T* d, T* s) { *d = std::move(*s); }
#define IO(N, T) \
  ENTRY void e_##N##_save(const T* d, yostream* s) { d->Save(s); } \
  ENTRY void e_##N##_load(T* d, yistream* s) { d->Load(s); }
#define MMAP(N, T) \
  ENTRY const void* e_##N##_mmap(T* d, const void* p, size_t n) { return d->Mmap(p, n); }
// ---- scanners: matching --------------------------------------------------------------------
#define MATCH(N, T) \
  ENTRY void e_##N##_init(const T* s, T::State* st) { s->Initialize(*st); } \
  ENTRY void e_##N##_next(const T* s, T::State* st, Char c) { s->Next(*st, c); } \
  ENTRY void e_##N##_act(const T* s, T::State* st, T::Action a) { s->TakeAction(*st, a); } \
  ENTRY void e_##N##_step(const T* s, T::State* st, Char c) { Step(*s, *st, c); } \
  ENTRY void e_##N##_run(const T* s, T::State* st, const char* b, const char* e) { Run(*s, *st, b, e); }
#define FINAL(N, T) \
  ENTRY bool e_##N##_final(const T* s, T::State* st) { return s->Final(*st); } \
  ENTRY bool e_##N##_dead(const T* s, T::State* st) { return s->Dead(*st); } \
  ENTRY const char* e_##N##_lpref(const T* s, const char* b, const char* e, bool x, bool y) { return LongestPrefix(*s, b, e, x, y); } \
  ENTRY const char* e_##N##_spref(const T* s, const char* b, const char* e, bool x, bool y) { return ShortestPrefix(*s, b, e, x, y); } \
  ENTRY const char* e_##N##_lsuf(const T* s, const char* b, const char* e, bool x, bool y) { return LongestSuffix(*s, b, e, x, y); } \
  ENTRY const char* e_##N##_ssuf(const T* s, const char* b, const char* e, bool x, bool y) { return ShortestSuffix(*s, b, e, x, y); } \
  ENTRY bool e_##N##_matches(const T* s, const char* b, const char* e) { return Matches(*s, b, e); }
#define SIZES(N, T) \
  ENTRY size_t e_##N##_size(const T* s) { return s->Size() + s->RegexpsCount() + s->Empty(); }
#define ACCEPT(N, T) \
  ENTRY void e_##N##_accepted(const T* s, T::State* st) { s->AcceptedRegexps(*st); } \
  ENTRY size_t e_##N##_stidx(const T* s, T::State* st) { return (size_t)s->StateIndex(*st); }
#define DIMS(N, T) \
  ENTRY size_t e_##N##_nstates(const T* s) { return s->Size(); } \
  ENTRY size_t e_##N##_nletters(const T* s) { return s->LettersCount(); }
DIMS(Scanner, Scanner) DIMS(NonrelocScanner, NonrelocScanner)
#define SLOWIDX(N, T) \
  ENTRY void e_##N##_accepted(const T* s, T::State* st) { s->AcceptedRegexps(*st); }
#define GLUE(N, T) \
  ENTRY void e_##N##_glue(T* d, const T* a, const T* b, size_t m) { new (d) T(T::Glue(*a, *b, m)); }
#define COMPILE(N, T) \
  ENTRY void e_##N##_compile(T* d, Fsm* f, size_t dist) { new (d) T(f->Compile<T>(dist)); }

#define ALLMULTI(N, T) LIFE(N,T) ASSIGN(N,T) IO(N,T) MATCH(N,T) FINAL(N,T) SIZES(N,T) ACCEPT(N,T) GLUE(N,T) COMPILE(N,T)
ALLMULTI(Scanner, Scanner) MMAP(Scanner, Scanner)
ALLMULTI(ScannerNoMask, ScannerNoMask) MMAP(ScannerNoMask, ScannerNoMask)
ALLMULTI(NonrelocScanner, NonrelocScanner)
ALLMULTI(NonrelocScannerNoMask, NonrelocScannerNoMask)
#define ALLHALF(N, T) LIFE(N,T) ASSIGN(N,T) IO(N,T) MATCH(N,T) FINAL(N,T) SIZES(N,T) ACCEPT(N,T) GLUE(N,T)
ALLHALF(HalfFinal, HalfFinalScanner) MMAP(HalfFinal, HalfFinalScanner)
ALLHALF(HalfFinalNoMask, HalfFinalScannerNoMask) MMAP(HalfFinalNoMask, HalfFinalScannerNoMask)
ALLHALF(NonrelocHalfFinal, NonrelocHalfFinalScanner)
ALLHALF(NonrelocHalfFinalNoMask, NonrelocHalfFinalScannerNoMask)
ENTRY void e_Scanner_fromNonreloc(Scanner* d, const NonrelocScanner* s) { new (d) Scanner(*s); }
ENTRY void e_NonrelocScanner_fromReloc(NonrelocScanner* d, const Scanner* s) { new (d) NonrelocScanner(*s); }
ENTRY void e_ScannerNoMask_fromNonreloc(ScannerNoMask* d, const NonrelocScannerNoMask* s) { new (d) ScannerNoMask(*s); }
ENTRY void e_NonrelocScannerNoMask_fromReloc(NonrelocScannerNoMask* d, const ScannerNoMask* s) { new (d) NonrelocScannerNoMask(*s); }

LIFE(Simple, SimpleScanner) ASSIGN(Simple, SimpleScanner) IO(Simple, SimpleScanner) MMAP(Simple, SimpleScanner) MATCH(Simple, SimpleScanner) FINAL(Simple, SimpleScanner) SIZES(Simple, SimpleScanner) ACCEPT(Simple, SimpleScanner) COMPILE(Simple, SimpleScanner)
LIFE(Slow, SlowScanner) ASSIGN(Slow, SlowScanner) IO(Slow, SlowScanner) MMAP(Slow, SlowScanner) MATCH(Slow, SlowScanner) FINAL(Slow, SlowScanner) SIZES(Slow, SlowScanner) SLOWIDX(Slow, SlowScanner) COMPILE(Slow, SlowScanner)
ENTRY bool e_Slow_canstop(const SlowScanner* s, SlowScanner::State* st) { return s->CanStop(*st); }
ENTRY void e_Slow_next2(const SlowScanner* s, const SlowScanner::State* a, SlowScanner::State* b, Char c) { s->Next(*a, *b, c); }

LIFE(Capturing, CapturingScanner) ASSIGN(Capturing, CapturingScanner) IO(Capturing, CapturingScanner) MMAP(Capturing, CapturingScanner) MATCH(Capturing, CapturingScanner) FINAL(Capturing, CapturingScanner) SIZES(Capturing, CapturingScanner) COMPILE(Capturing, CapturingScanner)
ENTRY void e_Capturing_next2(const CapturingScanner* s, const CapturingScanner::State* a, CapturingScanner::State* b, Char c) { s->Next(*a, *b, c); }
ENTRY unsigned e_Capturing_nextact(const CapturingScanner* s, CapturingScanner::State* st, Char c) { return s->Next(*st, c); }
ENTRY bool e_Capturing_captured(const CapturingScanner::State* st) { return st->Captured(); }
ENTRY size_t e_Capturing_begin(const CapturingScanner::State* st) { return st->Begin(); }
ENTRY size_t e_Capturing_end(const CapturingScanner::State* st) { return st->End(); }
LIFE(SlowCapturing, SlowCapturingScanner) IO(SlowCapturing, SlowCapturingScanner) MMAP(SlowCapturing, SlowCapturingScanner) MATCH(SlowCapturing, SlowCapturingScanner) SIZES(SlowCapturing, SlowCapturingScanner) COMPILE(SlowCapturing, SlowCapturingScanner)
ENTRY bool e_SlowCapturing_getcapture(const SlowCapturingScanner* s, const SlowCapturingScanner::State* st, SlowCapturingScanner::SingleState* r) { return s->GetCapture(*st, *r); }

#define ALLCOUNT(N, T) LIFE(N,T) ASSIGN(N,T) IO(N,T) MMAP(N,T) MATCH(N,T) SIZES(N,T) GLUE(N,T) \
  ENTRY void e_##N##_ctor(T* d, const Fsm* a, const Fsm* b) { new (d) T(*a, *b); } \
  ENTRY void e_##N##_next2(const T* s, const T::State* a, T::State* b, Char c) { s->Next(*a, *b, c); } \
  ENTRY unsigned e_##N##_nextact(const T* s, T::State* st, Char c) { return s->Next(*st, c); } \
  ENTRY size_t e_##N##_result(const T::State* s, int i) { return s->Result(i); }
ALLCOUNT(Counting, CountingScanner)
ALLCOUNT(AdvCounting, AdvancedCountingScanner)
ALLCOUNT(NoGlueLimit, NoGlueLimitCountingScanner)

// ---- probe scanners: every operation is an opaque external ---------------------------------
struct Probe {
  struct State { size_t v; };
  typedef unsigned Action;
  void Initialize(State&) const;
  Action Next(State&, Char) const;
  void TakeAction(State&, Action) const;
  bool Final(const State&) const;
  bool Dead(const State&) const;
  size_t StateIndex(const State&) const;
};
struct Probe2 {
  struct State { size_t v; };
  typedef unsigned Action;
  void Initialize(State&) const;
  Action Next(State&, Char) const;
  void TakeAction(State&, Action) const;
  bool Final(const State&) const;
  bool Dead(const State&) const;
  size_t StateIndex(const State&) const;
};
ENTRY void e_Probe_step(const Probe* s, Probe::State* st, Char c) { Step(*s, *st, c); }
ENTRY void e_Probe_run(const Probe* s, Probe::State* st, const char* b, const char* e) { Run(*s, *st, b, e); }
ENTRY void e_Probe_run2(const Probe* s, const Probe2* s2, Probe::State* st, Probe2::State* st2, const char* b, const char* e) { Run(*s, *s2, *st, *st2, b, e); }
ENTRY const char* e_Probe_lpref(const Probe* s, const char* b, const char* e, bool x, bool y) { return LongestPrefix(*s, b, e, x, y); }
ENTRY const char* e_Probe_spref(const Probe* s, const char* b, const char* e, bool x, bool y) { return ShortestPrefix(*s, b, e, x, y); }
ENTRY const char* e_Probe_lsuf(const Probe* s, const char* b, const char* e, bool x, bool y) { return LongestSuffix(*s, b, e, x, y); }
ENTRY const char* e_Probe_ssuf(const Probe* s, const char* b, const char* e, bool x, bool y) { return ShortestSuffix(*s, b, e, x, y); }
ENTRY bool e_Probe_matches(const Probe* s, const char* b, const char* e) { return Matches(*s, b, e); }
ENTRY void e_Probe_rh_run(RunHelper<Probe>* h, const char* b, const char* e) { h->Run(b, e); }
ENTRY void e_Probe_rh_runn(RunHelper<Probe>* h, const char* b, size_t n) { h->Run(b, n); }
ENTRY void e_Probe_rh_runs(RunHelper<Probe>* h, const ystring* s) { h->Run(*s); }
ENTRY void e_Probe_rh_begin(RunHelper<Probe>* h) { h->Begin(); }
ENTRY void e_Probe_rh_end(RunHelper<Probe>* h) { h->End(); }
ENTRY void e_Probe_rh_step(RunHelper<Probe>* h, Char c) { h->Step(c); }
ENTRY bool e_Probe_rh_bool(RunHelper<Probe>* h) { return *h; }
ENTRY bool e_Probe_rh_not(RunHelper<Probe>* h) { return !*h; }
ENTRY void e_Probe_runner(RunHelper<Probe>* h, const Probe* s) { new (h) RunHelper<Probe>(Runner(*s)); }
ENTRY void e_Probe_runner2(RunHelper<Probe>* h, const Probe* s, Probe::State* st) { new (h) RunHelper<Probe>(Runner(*s, *st)); }
typedef ScannerPair<Probe, Probe2> PP;
ENTRY void e_Pair_init(const PP* s, PP::State* st) { s->Initialize(*st); }
ENTRY void e_Pair_step(const PP* s, PP::State* st, Char c) { Step(*s, *st, c); }
ENTRY bool e_Pair_final(const PP* s, const PP::State* st) { return s->Final(*st); }
ENTRY bool e_Pair_dead(const PP* s, const PP::State* st) { return s->Dead(*st); }

// ---- the FSM --------------------------------------------------------------------------------
ENTRY void e_Fsm_ctor(Fsm* d) { new (d) Fsm(); }
ENTRY void e_Fsm_copy(Fsm* d, const Fsm* s) { new (d) Fsm(*s); }
ENTRY void e_Fsm_move(Fsm* d, Fsm* s) { new (d) Fsm(std::move(*s)); }
ENTRY void e_Fsm_assign(Fsm* d, const Fsm* s) { *d = *s; }
ENTRY void e_Fsm_swap(Fsm* a, Fsm* b) { a->Swap(*b); }
ENTRY void e_Fsm_makefalse(Fsm* d) { new (d) Fsm(Fsm::MakeFalse()); }
ENTRY void e_Fsm_append(Fsm* d, char c) { d->Append(c); }
ENTRY void e_Fsm_appends(Fsm* d, const ystring* c) { d->Append(*c); }
ENTRY void e_Fsm_appendsp(Fsm* d, Char c) { d->AppendSpecial(c); }
ENTRY void e_Fsm_appendstr(Fsm* d, const TVector<ystring>* c) { d->AppendStrings(*c); }
ENTRY void e_Fsm_appenddot(Fsm* d) { d->AppendDot(); }
ENTRY void e_Fsm_surround(Fsm* d) { d->Surround(); }
ENTRY void e_Fsm_surrounded(Fsm* d, const Fsm* s) { new (d) Fsm(s->Surrounded()); }
ENTRY void e_Fsm_addeq(Fsm* d, const Fsm* s) { *d += *s; }
ENTRY void e_Fsm_oreq(Fsm* d, const Fsm* s) { *d |= *s; }
ENTRY void e_Fsm_andeq(Fsm* d, const Fsm* s) { *d &= *s; }
ENTRY void e_Fsm_muleq(Fsm* d, size_t n) { *d *= n; }
ENTRY void e_Fsm_iterate(Fsm* d) { d->Iterate(); }
ENTRY void e_Fsm_complement(Fsm* d) { d->Complement(); }
ENTRY void e_Fsm_add(Fsm* d, const Fsm* a, const Fsm* b) { new (d) Fsm(*a + *b); }
ENTRY void e_Fsm_or(Fsm* d, const Fsm* a, const Fsm* b) { new (d) Fsm(*a | *b); }
ENTRY void e_Fsm_and(Fsm* d, const Fsm* a, const Fsm* b) { new (d) Fsm(*a & *b); }
ENTRY void e_Fsm_star(Fsm* d, const Fsm* a) { new (d) Fsm(**a); }
ENTRY void e_Fsm_not(Fsm* d, const Fsm* a) { new (d) Fsm(~*a); }
ENTRY void e_Fsm_mul(Fsm* d, const Fsm* a, size_t n) { new (d) Fsm(*a * n); }
ENTRY void e_Fsm_makeprefix(Fsm* d) { d->MakePrefix(); }
ENTRY void e_Fsm_makesuffix(Fsm* d) { d->MakeSuffix(); }
ENTRY void e_Fsm_prependany(Fsm* d) { d->PrependAnything(); }
ENTRY void e_Fsm_appendany(Fsm* d) { d->AppendAnything(); }
ENTRY void e_Fsm_reverse(Fsm* d) { d->Reverse(); }
ENTRY void e_Fsm_deadstates(const Fsm* d) { d->DeadStates(); }
ENTRY void e_Fsm_removedead(Fsm* d) { d->RemoveDeadEnds(); }
ENTRY void e_Fsm_canonize(Fsm* d, size_t m) { d->Canonize(m); }
ENTRY bool e_Fsm_determine(Fsm* d, size_t m) { return d->Determine(m); }
ENTRY void e_Fsm_minimize(Fsm* d) { d->Minimize(); }
ENTRY void e_Fsm_sparse(Fsm* d, bool e) { d->Sparse(e); }
ENTRY void e_Fsm_unsparse(Fsm* d) { d->Unsparse(); }
ENTRY void e_Fsm_rmeps(Fsm* d) { d->RemoveEpsilons(); }
ENTRY void e_Fsm_import(Fsm* d, const Fsm* s) { d->Import(*s); }
ENTRY void e_approx(Fsm* d, const Fsm* s, size_t n) { new (d) Fsm(CreateApproxFsm(*s, n)); }

// ---- lexer, features, encodings, easy interface ----------------------------------------------
ENTRY void e_Lexer_parse(Fsm* d, Lexer* l) { new (d) Fsm(l->Parse()); }
ENTRY void e_Lexer_assign(Lexer* l, const wchar32* b, const wchar32* e) { l->Assign(b, e); }
ENTRY void e_Lexer_assignc(Lexer* l, const char* b, const char* e) { l->Assign(b, e); }
ENTRY void e_Lexer_addfeature(Lexer* l, Feature::Ptr* f) { l->AddFeature(*f); }
ENTRY void e_Lexer_default(Lexer* l) { new (l) Lexer(); }
ENTRY void e_Lexer_fromstr(Lexer* l, const ystring* s) { new (l) Lexer(*s); }
ENTRY void e_Lexer_dtor(Lexer* l) { l->~Lexer(); }
ENTRY void e_Features(Feature::Ptr* out) {
  out[0] = Features::CaseInsensitive(); out[1] = Features::AndNotSupport(); out[2] = Features::GlueSimilarGlyphs(); out[3] = Features::Capture(1);
}
ENTRY void e_Encodings(const Encoding** out) { out[0] = &Encodings::Latin1(); out[1] = &Encodings::Utf8(); }
ENTRY void e_Regexp_ctor(Regexp* r, const Scanner* sc) { new (r) Regexp(*sc); }
ENTRY void e_Regexp_ctor2(Regexp* r, const SlowScanner* sc) { new (r) Regexp(*sc); }
ENTRY void e_Regexp_ctors(Regexp* r, const ystring* s) { new (r) Regexp(*s); }
ENTRY void e_Regexp_copy(Regexp* r, const Regexp* s) { new (r) Regexp(*s); }
ENTRY void e_Regexp_assign(Regexp* r, const Regexp* s) { *r = *s; }
ENTRY void e_Regexp_ctoro(Regexp* r, const char* s) { new (r) Regexp(s, UTF8 | I | ANDNOT); }
ENTRY void e_Regexp_ctoro1(Regexp* r, const char* s) { new (r) Regexp(s, UTF8); }
ENTRY bool e_Regexp_matches(const Regexp* r, const char* b, const char* e) { return r->Matches(b, e); }
ENTRY void e_Regexp_dtor(Regexp* r) { r->~Regexp(); }

// ---- small value types -----------------------------------------------------------------------
struct AnyPayload { int x; AnyPayload(const AnyPayload&); ~AnyPayload(); };
ENTRY void e_Any_copy(Any* d, const Any* s) { new (d) Any(*s); }
ENTRY void e_Any_assign(Any* d, const Any* s) { *d = *s; }
ENTRY void e_Any_swap(Any* d, Any* s) { d->Swap(*s); }
ENTRY void e_Any_make(Any* d, const AnyPayload* p) { new (d) Any(*p); }
ENTRY AnyPayload* e_Any_as(Any* d) { return &d->As<AnyPayload>(); }
ENTRY const AnyPayload* e_Any_asc(const Any* d) { return &d->As<AnyPayload>(); }
ENTRY void e_Any_dtor(Any* d) { d->~Any(); }
ENTRY void e_BitSet_swap(BitSet* a, BitSet* b) { a->Swap(*b); }
ENTRY void e_BitSet_ctor(BitSet* a, size_t n) { new (a) BitSet(n); }
ENTRY void e_BitSet_default(BitSet* a) { new (a) BitSet(); }
ENTRY void e_BitSet_copy(BitSet* a, const BitSet* b) { new (a) BitSet(*b); }
ENTRY void e_BitSet_set(BitSet* a, size_t n) { a->Set(n); }
ENTRY void e_BitSet_reset(BitSet* a, size_t n) { a->Reset(n); }
ENTRY bool e_BitSet_test(const BitSet* a, size_t n) { return a->Test(n); }
ENTRY void e_BitSet_clear(BitSet* a) { a->Clear(); }
ENTRY void e_BitSet_resize(BitSet* a, size_t n) { a->Resize(n); }
