// C19: error numbers.
// vf-src: bw_format TextView string_view_util MemArena
// vf-opt vc_errno: split=8
#include "vf.h"
#include "swoc/BufferWriter.h"
#include "swoc/bwf_base.h"
#include "swoc/bwf_ex.h"
#include "swoc/bwf_std.h"
#include <cerrno>
#include <ctime>
using namespace swoc;
#ifndef VF_NATIVE
extern "C" char *strerror(int e) noexcept { vf_trusted("strerror gives a text for any number"); static char a[] = "some text", b[] = ""; return e & 1 ? a : b; }
#endif
// Dates. The text is that of strftime, here any text; the time structure tells which conversion was used.
static char text[40]; static size_t textn; static bool local; static time_t asked;
extern "C" struct tm *gmtime_r(time_t const *t, struct tm *r) noexcept { r->tm_year = 1; asked = *t; return r; }
extern "C" struct tm *localtime_r(time_t const *t, struct tm *r) noexcept { r->tm_year = 2; asked = *t; return r; }
extern "C" size_t strftime(char *b, size_t max, char const *f, struct tm const *t) noexcept {
  vf_trusted("gmtime_r, localtime_r and strftime as in POSIX");
  local = t->tm_year == 2;
  if (f[0] != '%' || f[1] != 'F' || f[2]) return 0;
  if (textn < max) { for (size_t i = 0; i < textn; ++i) b[i] = text[i]; b[textn] = 0; return textn; }
  for (size_t i = 0; i < max; ++i) b[i] = '?'; // unspecified
  return 0;
}
VC(vc_date) {
  vf_bounded("texts of up to 5 bytes");
  size_t cap = vf_pick("capacity", 0, 8), before = vf_pick("before", 0, 2);
  textn = vf_pick("length", 0, 5);
  for (size_t i = 0; i < textn; ++i) text[i] = 'a' + i;
  unsigned form = vf_pick("form", 0, 3);
  static char const *const FORM[] = {"{}", "{::local}", "{::other}", "{:d}"};
  static long const SECONDS[] = {0, 1700000000L, -1, 9};
  time_t when = form == 3 ? SECONDS[vf_pick("seconds", 0, 3)] : vf_u64("when");
  char *b = (char *)vf_buffer(cap, "buffer");
  FixedBufferWriter w(b, cap);
  for (size_t i = 0; i < before; ++i) w.write('#');
  char want[64]; size_t n = 0;
  for (; n < before; ++n) want[n] = '#';
  w.print(TextView(FORM[form], TextView::npos), bwf::Date(when, "%F"));
  if (form == 3) { char d[24]; unsigned i = 0; long v = when < 0 ? -when : when; do d[i++] = '0' + v % 10; while (v /= 10); if (when < 0) want[n++] = '-'; while (i) want[n++] = d[--i]; }
  else {
    for (size_t i = 0; i < textn; ++i) want[n++] = text[i];
    EN(local == (form == 1) && asked == when, "the time asked for, local only if requested");
  }
  EN(w.extent() == n && w.size() == (n < cap ? n : cap), "all of the date is accounted for");
  bool same = true;
  for (size_t i = 0; i < w.size(); ++i) same = vf_and(same, b[i] == want[i]);
  EN(same, "the text of the date");
}
#define N(x) {x, #x}
static struct { int e; char const *name; } const ERR[] = {{0, "SUCCESS"}, N(EPERM), N(ENOENT), N(ESRCH), N(EINTR),
  N(EIO), N(ENXIO), N(E2BIG), N(ENOEXEC), N(EBADF), N(ECHILD), N(EAGAIN), N(ENOMEM), N(EACCES), N(EFAULT),
  N(ENOTBLK), N(EBUSY), N(EEXIST), N(EXDEV), N(ENODEV), N(ENOTDIR), N(EISDIR), N(EINVAL), N(ENFILE), N(EMFILE),
  N(ENOTTY), N(ETXTBSY), N(EFBIG), N(ENOSPC), N(ESPIPE), N(EROFS), N(EMLINK), N(EPIPE), N(EDOM), N(ERANGE),
  N(EDEADLK), N(ENAMETOOLONG), N(ENOLCK), N(ENOSYS), N(ENOTEMPTY), N(ELOOP), N(ENOMSG), N(EIDRM), N(ECHRNG),
  N(EL2NSYNC), N(EL3HLT), N(EL3RST), N(ELNRNG), N(EUNATCH), N(ENOCSI), N(EL2HLT), N(EBADE), N(EBADR), N(EXFULL),
  N(ENOANO), N(EBADRQC), N(EBADSLT), N(EBFONT), N(ENOSTR), N(ENODATA), N(ETIME), N(ENOSR), N(ENONET), N(ENOPKG),
  N(EREMOTE), N(ENOLINK), N(EADV), N(ESRMNT), N(ECOMM), N(EPROTO), N(EMULTIHOP), N(EDOTDOT), N(EBADMSG),
  N(EOVERFLOW), N(ENOTUNIQ), N(EBADFD), N(EREMCHG), N(ELIBACC), N(ELIBBAD), N(ELIBSCN), N(ELIBMAX), N(ELIBEXEC),
  N(EILSEQ), N(ERESTART), N(ESTRPIPE), N(EUSERS), N(ENOTSOCK), N(EDESTADDRREQ), N(EMSGSIZE), N(EPROTOTYPE),
  N(ENOPROTOOPT), N(EPROTONOSUPPORT), N(ESOCKTNOSUPPORT), N(EOPNOTSUPP), N(EPFNOSUPPORT), N(EAFNOSUPPORT),
  N(EADDRINUSE), N(EADDRNOTAVAIL), N(ENETDOWN), N(ENETUNREACH), N(ENETRESET), N(ECONNABORTED), N(ECONNRESET),
  N(ENOBUFS), N(EISCONN), N(ENOTCONN), N(ESHUTDOWN), N(ETOOMANYREFS), N(ETIMEDOUT), N(ECONNREFUSED), N(EHOSTDOWN),
  N(EHOSTUNREACH), N(EALREADY), N(EINPROGRESS), N(ESTALE), N(EUCLEAN), N(ENOTNAM), N(ENAVAIL), N(EISNAM),
  N(EREMOTEIO), N(EDQUOT), N(ENOMEDIUM), N(EMEDIUMTYPE), N(ECANCELED), N(ENOKEY), N(EKEYEXPIRED), N(EKEYREVOKED),
  N(EKEYREJECTED), N(EOWNERDEAD), N(ENOTRECOVERABLE), N(ERFKILL), N(EHWPOISON)};
VC(vc_errno) { // every error number with a name, and numbers without
  static int const NONE[] = {-1, 134, 135, 1000, 1 << 16, 2147483647, -2147483647 - 1};
  constexpr unsigned M = sizeof(ERR) / sizeof(ERR[0]);
  unsigned k = vf_part(8) + 8 * vf_pick("number", 0, (M + 7) / 8);
  int e; char const *name;
  if (k < M) { e = ERR[k].e; name = ERR[k].name; }
  else if (k - M < 7) { e = NONE[k - M]; name = "Unknown"; }
  else vf_stop();
  char want[300]; size_t n = 0;
  auto put = [&](char const *t) { while (*t) want[n++] = *t++; };
  auto num = [&] { char d[12]; unsigned i = 0; unsigned long v = e < 0 ? -(long)e : e; do d[i++] = '0' + v % 10; while (v /= 10); want[n++] = '['; if (e < 0) want[n++] = '-'; while (i) want[n++] = d[--i]; want[n++] = ']'; };
  static char const *const FORM[] = {"{}", "{:d}", "{::s}", "{::l}", "{:s}", "{:s:s}", "{:S:l}", "{:x}"};
  unsigned form = vf_pick("form", 0, 7);
  if (form != 1 && form != 7) {
    bool s = form == 0 || form == 2 || form == 4 || form == 5, l = form == 0 || form == 3 || form == 4 || form == 6;
    if (s) put(name);
    if (s && l) put(": ");
    if (l) put(strerror(e));
    if (form < 4) put(" ");
  }
  if (form < 4 || form == 7) num();
  char b[300];
  FixedBufferWriter w(b, sizeof b);
  w.print(TextView(FORM[form], TextView::npos), bwf::Errno(e));
  bool same = w.size() == n;
  for (size_t i = 0; same && i < n; ++i) same = b[i] == want[i];
  EN(same, "the name, the text and the number of an error");
  if (k < M && k && form < 2) { // as an error code
    n = 0;
    if (form == 0) { put(name); put(" "); num(); }
    else { num(); n -= 2; for (size_t i = 0; i < n; ++i) want[i] = want[i + 1]; } // without the brackets
    w.clear();
    w.print(TextView(FORM[form], TextView::npos), std::error_code(e, vf_bool("system") ? std::system_category() : std::generic_category()));
    same = w.size() == n;
    for (size_t i = 0; same && i < n; ++i) same = b[i] == want[i];
    EN(same, "the name and the number of an error code");
  }
}
