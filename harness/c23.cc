// C23: error reports.
// vf-src: Errata bw_format TextView string_view_util MemArena
// vf-opt vc_history: split=13 cost=9 ttimeout=600
// vf-opt vc_note: split=4 cost=3
// vf-opt vc_text: split=4 tsplit=6 cost=3
#include "ostream_capture.h"
#include "swoc/Errata.h"
using namespace swoc;
using namespace swoc::literals;
typedef Errata::Severity Sev;
static bool same(std::string_view a, std::string_view b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i) if (a[i] != b[i]) return false;
  return true;
}
// The notes a report should have.
struct N { std::string_view text; int sev; unsigned level; };
struct M {
  bool data = false;
  N n[12]; unsigned k = 0; int sev = -1; int code = 0;
  void top(int s) { if (sev < s) sev = s; }
  void add(std::string_view t, int s, unsigned level = 0) { data = true; n[k++] = {t, s, level}; }
};
static int FILTER = 0, FAILURE = 2, DEFAULT = 2;
static void note(M &m, std::string_view t, int s) { m.data = true; m.sev = int(vf_ite(m.sev < s, s, m.sev)); if (s < 0 || s >= FILTER) m.add(t, s); }
static void merge(M &m, M const &o) { if (o.data) { m.data = true; m.sev = int(vf_ite(m.sev < o.sev, o.sev, m.sev)); for (unsigned i = 0, n = o.k; i < n; ++i) m.add(o.n[i].text, o.n[i].sev, o.n[i].level + 1); } }
static void check(Errata const &e, M const &m) {
  EN(e.length() == m.k && e.empty() == (m.k == 0), "number of notes");
  unsigned i = 0;
  for (auto const &n : e) {
    if (i >= m.k) break;
    EN(same(n.text(), m.n[i].text), "text of each note in order");
    EN(n.has_severity() == (m.n[i].sev >= 0) && n.level() == m.n[i].level, "severity present, nesting level");
    if (n.has_severity()) EN(n.severity() == m.n[i].sev, "severity of each note");
    EN(n.severity(Sev(7)) == (m.n[i].sev < 0 ? 7 : m.n[i].sev), "severity with default");
    ++i;
  }
  EN(i == m.k, "every note is visited");
  if (m.k) EN(same(e.front().text(), m.n[0].text) && same(e.back().text(), m.n[m.k - 1].text), "first and last note");
  EN(e.has_severity() == (m.sev >= 0), "severity is set if any was given");
  int s = int(vf_ite(m.sev < 0, DEFAULT, m.sev));
  EN(e.severity() == s, "highest severity");
  bool ok = vf_or(!m.data, s < FAILURE);
  EN(vf_and(e.is_ok() == ok, vf_and(bool(e) == ok, !e == !ok)), "failure exactly at the threshold");
  EN(e.code().value() == m.code, "error code");
}
static char const *const TEXT[] = {"alpha", "", "beta gamma", "0123456789012345678901234567890123456789"};
static Sev sev(char const *n, int &s) { s = vf_u8(n); return Sev(uint8_t(s)); }
static unsigned pick(char const *n, unsigned k) { return vf_pick(n, 0, k - 1); }
static int calls; static size_t seen;
struct Count : Errata::Sink { void operator()(Errata const &e) const override { ++calls; seen = e.length(); } };
static void config() {
  FILTER = vf_u8("filter"); FAILURE = vf_u8("failure"); DEFAULT = vf_u8("default");
  Errata::FILTER_SEVERITY = Sev(uint8_t(FILTER)); Errata::FAILURE_SEVERITY = Sev(uint8_t(FAILURE)); Errata::DEFAULT_SEVERITY = Sev(uint8_t(DEFAULT));
}
// One operation on a report.
static void op(unsigned k, Errata &e, M &m, Errata &o, M &p) {
  int s;
  switch (k) {
  case 0: { char b[12] = "copied"; e.note(TextView(b, 6)); b[0] = 'x'; note(m, "copied", -1); break; }
  case 1: { Sev v = sev("severity", s); e.note(v, TEXT[2]); note(m, TEXT[2], s); break; }
  case 2: e.note("{}-{}", TEXT[0], 17); note(m, "alpha-17", -1); break;
  case 3: { Sev v = sev("severity", s); e.note(v, "<{}>", TEXT[3]); note(m, "<0123456789012345678901234567890123456789>", s); break; }
  case 4: e.note(o); merge(m, p); break;
  case 5: e.note(std::move(o)); merge(m, p); p = M(); break;
  case 6: e = std::move(o); m = p; p = M(); break;
  case 7: { Errata x(std::move(e)); check(x, m); EN(e.length() == 0 && e.is_ok(), "moved from is empty"); e = std::move(x); break; }
  case 8: { Sev v = sev("severity", s); e.assign(v); m.sev = s; m.data = true; break; }
  case 9: { Sev v = sev("severity", s); e.update(v); m.sev = int(vf_ite(m.sev < s, s, m.sev)); m.data = true; break; }
  case 10: e.clear(); m = M(); break;
  case 11: e.sink(); m = M(); break;
  case 12: e.assign(std::error_code(11, std::generic_category())); m.code = 11; m.data = true; break;
  }
}
// Histories of operations on two reports.
VC(vc_default) {
  EN(Errata::FILTER_SEVERITY == 0, "nothing is filtered by default");
  Errata e;
  int s; Sev v = sev("severity", s);
  e.note(v, "x");
  EN(e.length() == 1 && e.severity() == s && e.is_ok() == (s < Errata::FAILURE_SEVERITY), "a note of any severity is kept");
  vf_cover("default");
}
VC(vc_history) {
  vf_bounded("up to three operations (thorough: four), two reports");
  config();
  Errata a, b;
  M m, p;
  unsigned first = vf_part(13);
  int s;
  if (vf_bool("other")) { Sev v = sev("of other", s); b.note("first of other").note(v, "second"); note(p, "first of other", -1); note(p, "second", s); }
  check(b, p);
  op(first, a, m, b, p);
  check(a, m); check(b, p);
  unsigned second = pick("second", 13);
  op(second, a, m, b, p);
  check(a, m); check(b, p);
  op(pick("third", 13), b, p, a, m);
  check(a, m); check(b, p);
  if (VF_N(0, 1)) { op(pick("fourth", 13), a, m, b, p); check(a, m); check(b, p); }
  vf_cover("history");
}
// Construction.
VC(vc_construct) {
  config();
  int s;
  Sev v = sev("severity", s);
  std::error_code ec(11, std::generic_category());
  M m;
  { Errata e; check(e, m); m.data = true; }
  { Errata e(v); m.sev = s; check(e, m); m.code = 11; }
  { Errata e(ec, v); check(e, m); }
  { Errata e(ec, v, "text"); m.add("text", -1); check(e, m); }
  { Errata e(ec, v, "{}", 5); m.n[0].text = "5"; check(e, m); m.code = 0; }
  { Errata e(v, "{}", 5); check(e, m); m.sev = DEFAULT; }
  { Errata e("{}", 5); check(e, m); m.code = 11; }
  { Errata e(ec, "{}", 5); check(e, m); m.n[0].text = "text"; }
  { Errata e(ec, "text"); check(e, m); m.code = 0; }
  { Errata e("text"); check(e, m); m.sev = s; }
  { Errata e(v, "text"); check(e, m); m.k = 0; m.code = 11; m.sev = -1; }
  { Errata e(ec); check(e, m); }
  vf_cover("constructed");
}
// The text of a note of any length is its own copy.
VC(vc_note) {
  vf_bounded("text lengths around the initial storage of 512 bytes");
  unsigned part = vf_part(4);
  size_t n = part < 2 ? VF_N(40, 120) : 700;
  char b[701];
  for (size_t i = 0; i < n; ++i) b[i] = 'a' + i % 26;
  char c = b[part] = vf_u8("byte");
  Errata e;
  size_t before = part & 1 ? pick("filler", 5) : 0;
  for (size_t i = 0; i < before; ++i) e.note("0123456789012345678901234567890123456789012345678901234567890123456789");
  if (part & 1) e.note("{}{}", TextView(b, n), TextView("!")); else e.note(TextView(b, n));
  e.note("after");
  b[part] = 0;
  EN(e.length() == before + 2, "three notes");
  auto it = e.begin();
  for (size_t i = 0; i < before; ++i) { EN(it->text().size() == 70 && it->text()[69] == '9', "earlier note"); ++it; }
  TextView t = it->text();
  EN(t.size() == n + (part & 1), "length of the text");
  bool ok = true;
  for (size_t i = 0; i < n && i < t.size(); ++i) ok = vf_and(ok, t[i] == (i == part ? c : char('a' + i % 26)));
  EN(ok, "text");
  EN(same(e.back().text(), "after"), "note after it");
  vf_cover("note");
}
VC(vc_annotation) {
  char *t = (char *)vf_opaque(1); size_t n = vf_range("n", 0, 1u << 20);
  unsigned lvl = vf_u16("level"), sev = vf_u8("severity"); bool has = vf_bool("has severity");
  Errata::Annotation a{std::string_view{t, n}, has ? std::optional<Errata::Severity>{Errata::Severity(sev)} : std::optional<Errata::Severity>{}, (unsigned short)lvl};
  EN(a.text().data() == t && a.text().size() == n && a.level() == lvl && a.has_severity() == has, "construction");
  if (has) EN(a.severity() == Errata::Severity(sev) && a.severity(Errata::Severity(1)) == Errata::Severity(sev), "severity"); else EN(a.severity(Errata::Severity(sev)) == Errata::Severity(sev), "default severity");
  Errata::Annotation &b = a.clear();
  EN(&b == &a && a.text().empty() && Errata::Annotation{}.text().empty() && !Errata::Annotation{}.has_severity(), "clear");
  vf_cover("done");
}
// The report as text.
VC(vc_text) {
  vf_bounded("reports of up to 2 (thorough: 3) notes with the listed texts and severities, one level of nesting");
  static char const *const GLUE[] = {"", "; "};
  FILTER = 0; FAILURE = 2; DEFAULT = 2;
  Errata::FILTER_SEVERITY = Sev(0); Errata::FAILURE_SEVERITY = Sev(2); Errata::DEFAULT_SEVERITY = Sev(2);
  unsigned part = vf_part(6);
  int top = -1;
  char w[200]; size_t n = 0;
  auto put = [&](std::string_view t) { for (char c : t) w[n++] = c; };
  auto put_sev = [&](int s) { if (s < 3) put(s == 0 ? "Info" : s == 1 ? "Warning" : "Error"); else w[n++] = '0' + s; };
  Errata e, inner;
  std::string_view glue = "\n", sglue = ": ", aglue = ": ", indent = "  ";
  bool last = true;
  EN(same(e.annotation_glue_text(), glue) && same(e.severity_glue_text(), sglue) && same(e.annotation_severity_glue_text(), aglue) && same(e.indent_text(), indent), "texts before any is set");
  if (part & 1) {
    char b[4] = ",,"; // not kept
    last = vf_bool("at the end too");
    e.assign_annotation_glue_text(TextView(b, 2), last); glue = ",,";
    b[0] = '='; b[1] = '>'; e.assign_severity_glue_text(TextView(b, 2)); sglue = "=>";
    b[0] = '~'; e.assign_annotation_severity_glue_text(TextView(b, 1)); aglue = "~";
    b[0] = '-'; e.assign_indent_text(TextView(b, 1)); indent = "-";
    b[0] = b[1] = 0;
    EN(same(e.annotation_glue_text(), glue) && same(e.severity_glue_text(), sglue) && same(e.annotation_severity_glue_text(), aglue) && same(e.indent_text(), indent), "texts are kept");
  }
  struct { std::string_view t; int s; unsigned lvl; } note[3];
  unsigned k = VF_N(part % 4, part) / 2 + 1, outer = pick("outer", 4);
  if (outer > k) outer = k;
  for (unsigned i = 0; i < k; ++i) {
    unsigned kind = pick("note", 4);
    note[i] = {kind == 3 ? std::string_view("") : i == 1 ? std::string_view("middle") : std::string_view("n"), kind == 0 ? -1 : kind == 2 ? 7 : 1, i >= outer};
    Errata &x = i < outer ? e : inner;
    if (note[i].s < 0) x.note(note[i].t); else x.note(Sev(uint8_t(note[i].s)), note[i].t);
    if (top < note[i].s) top = note[i].s;
  }
  if (outer < k) e.note(inner);
  if (unsigned g = pick("given severity", 3)) { int s = g == 1 ? 0 : 2; e.update(Sev(uint8_t(s))); if (top < s) top = s; }
  if (top >= 0) { put_sev(top); put(sglue); }
  if (vf_bool("code")) { e.assign(std::error_code(11, std::system_category())); put("[eagain 11] "); }
  bool any = false;
  for (unsigned i = 0; i < k; ++i) if (note[i].t.size()) {
    if (any) put(glue);
    any = true;
    if (note[i].lvl) put(indent);
    if (note[i].s >= 0) { put_sev(note[i].s); put(aglue); }
    put(note[i].t);
  }
  if (any && last) put(glue);
  char b[200];
  FixedBufferWriter bw(b, sizeof b);
  bwformat(bw, bwf::Spec::DEFAULT, e);
  EN(same(bw.view(), std::string_view(w, n)), "severity, code and every note once in order");
  inner.clear(); e.clear();
  vf_cover("text");
}
VC(vc_stream) { // the same text in a stream
  vf_bounded("reports of up to two of the listed notes");
  FILTER = 0; FAILURE = 2; DEFAULT = 2;
  Errata::FILTER_SEVERITY = Sev(0); Errata::FAILURE_SEVERITY = Sev(2); Errata::DEFAULT_SEVERITY = Sev(2);
  Errata e;
  unsigned n = pick("notes", 3);
  for (unsigned i = 0; i < n; ++i) { unsigned k = pick("note", 3); if (k == 2) e.note(TEXT[3]); else e.note(Sev(uint8_t(i + k)), TEXT[k]); }
  if (vf_bool("code")) e.assign(std::error_code(11, std::system_category()));
  char b[200];
  FixedBufferWriter bw(b, sizeof b);
  bwformat(bw, bwf::Spec::DEFAULT, e);
  std::ostream &os = the_stream();
  EN(&(vf_bool("operator") ? os << e : e.write(os)) == &os && !bw.error() && streamed(bw.data(), bw.size()), "the same text in a stream");
}
// A sink sees each abandoned report once.
VC(vc_sink) {
  calls = 0;
  Errata::register_sink(Errata::Sink::Handle(new Count));
  { Errata e; }
  EN(calls == 0, "an empty report is not logged");
  { Errata e("text"); e.note("other"); }
  EN(calls == 1 && seen == 2, "logged when destroyed");
  { Errata e("text"); e.sink(); EN(calls == 2 && seen == 1 && e.empty(), "logged on demand"); }
  EN(calls == 2, "and not again");
  { Errata e("text"); Errata f(std::move(e)); { Errata g; g = std::move(f); EN(calls == 2, "moves do not log"); } EN(calls == 3, "the last owner logs"); }
  EN(calls == 3, "only the owner logs");
  { Errata e("text"), f("more"); e.note(std::move(f)); EN(e.length() == 2 && calls == 3, "merging does not log"); }
  EN(calls == 4 && seen == 2, "the merged report is logged once");
  { Errata e("text"); e.clear(); }
  EN(calls == 4, "a cleared report is not logged");
  { Rv<int> r(3, Errata("text")); }
  EN(calls == 5, "logged with a result");
  unsigned lambda = 0;
  Errata::register_sink([&](Errata const &e) { lambda += e.length(); });
  { Errata e("text"); }
  EN(calls == 6 && lambda == 1, "every sink");
  vf_cover("sink");
}
// A result with a report.
VC(vc_result) {
  config();
  int v = vf_u32("value"), w = vf_u32("other value"), s;
  Sev sv = sev("severity", s);
  Rv<int> a(v);
  M none, m;
  EN(a.is_ok() && a == v && a.result() == v, "a value is a success");
  check(a.errata(), none);
  a.note(sv, "text"); note(m, "text", s);
  check(a.errata(), m);
  EN(a.is_ok() == (s < FAILURE) && a.result() == v, "success by severity");
  EN((a = w) == w && a.result() == w, "assign a result");
  check(a.errata(), m);
  EN(a.assign(v).result() == v, "assign");
  a.note("{}", 3); note(m, "3", -1); a.note("plain"); note(m, "plain", -1);
  check(a.errata(), m);
  Rv<int> b(w, Errata(sv, "mine"));
  M p; p.data = true; p.sev = s; p.add("mine", -1);
  check(b.errata(), p);
  if (vf_bool("copy")) { b.note(a.errata()); merge(p, m); }
  else { b.note(std::move(a.errata())); merge(p, m); m = M(); }
  check(b.errata(), p); check(a.errata(), m);
  EN(b.result() == w && a.result() == v, "results unchanged");
  Rv<int> c(std::move(b));
  check(c.errata(), p);
  EN(c.result() == w, "moved");
  auto &[r, e] = c;
  EN(&r == &c.result() && &e == &c.errata(), "structured binding");
  c = Errata(sv, "new");
  p = M(); p.data = true; p.sev = s; p.add("new", -1);
  check(c.errata(), p); EN(c.result() == w, "result kept");
  c.clear();
  check(c.errata(), none);
  { auto k = MakeRv(v + 0, Errata(sv, "new")); check(k.errata(), p); EN(k.result() == v, "a result made of a value and a report"); }
  EN(c.is_ok(), "cleared");
  vf_cover("result");
}
