/* Executes calls of the C interface read from standard input, one per line, and prints what they
 * gave. Compiled against /repo/capi/rustsat.h and linked with the static library built from the
 * current tree. */
#include <errno.h>
#include <limits.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#include "rustsat.h"

#if defined(__SANITIZE_ADDRESS__) || defined(WITH_ASAN)
extern size_t __sanitizer_get_current_allocated_bytes(void);
static size_t live(void) { return __sanitizer_get_current_allocated_bytes(); }
#else
#include <malloc.h>
static size_t live(void) { return mallinfo2().uordblks; }
#endif

#define SLOTS 64
#define COOKIE 0x51ab0c0ffeeULL

static char line[256];
static char outbuf[1 << 16];

struct sink {
  unsigned long long cookie;
  size_t calls;
};

static void collect(int lit, void *data) {
  struct sink *s = data;
  if (s->cookie != COOKIE) {
    fprintf(stderr, "collector data was not passed through\n");
    abort();
  }
  s->calls++;
  printf("%d ", lit);
}

/* a variable counter between canaries */
struct cell {
  uint32_t pre, n, post;
};

static enum { NONE, PAIRWISE, LADDER, BITWISE, COMMANDER, BIMANDER, TWOPRODUCT, TOT, GTE, ADDER, DPW } kind[SLOTS];
static void *obj[SLOTS];
static size_t before[SLOTS];

static void die(const char *what) {
  fprintf(stderr, "driver: %s: %s\n", what, line);
  exit(3);
}

#define AM1S(X) X(PAIRWISE, pairwise) X(LADDER, ladder) X(BITWISE, bitwise) X(COMMANDER, commander) X(BIMANDER, bimander) X(TWOPRODUCT, twoproduct)

int main(void) {
  setvbuf(stdout, outbuf, _IOFBF, sizeof outbuf);
  while (fgets(line, sizeof line, stdin)) {
    char op[16];
    int id = 0;
    long long a = 0, c = 0;
    unsigned long long ua, ub;
    struct sink s = {COOKIE, 0};
    if (sscanf(line, "%15s %d", op, &id) < 2 || id < 0 || id >= SLOTS) die("bad line");
    const char *rest = strchr(strchr(line, ' ') + 1, ' ');
    rest = rest ? rest : "";
    switch (op[0]) {
      case 'N': {
        if (sscanf(rest, "%lld", &a) != 1 || obj[id]) die("bad new");
        before[id] = live();
        kind[id] = (int)a;
        switch (kind[id]) {
#define X(K, p) \
  case K: \
    obj[id] = p##_new(); \
    break;
          AM1S(X) X(TOT, tot) X(GTE, gte) X(ADDER, bin_adder) X(DPW, dpw)
#undef X
              default : die("bad kind");
        }
        printf("%d", obj[id] != NULL);
        break;
      }
      case 'D': {
        switch (kind[id]) {
#define X(K, p) \
  case K: \
    p##_drop(obj[id]); \
    break;
          AM1S(X) X(TOT, tot) X(GTE, gte) X(ADDER, bin_adder) X(DPW, dpw)
#undef X
              default : die("bad kind");
        }
        obj[id] = NULL;
        printf("%lld", (long long)live() - (long long)before[id]);
        break;
      }
      case 'A': {
        unsigned long long w = 1;
        if (sscanf(rest, "%lld %llu", &a, &w) < 1) die("bad add");
        int lit = (int)a;
        enum MaybeError e = Ok;
        switch (kind[id]) {
#define X(K, p) \
  case K: \
    e = p##_add(obj[id], lit); \
    break;
          AM1S(X) X(TOT, tot)
#undef X
              case GTE : e = gte_add(obj[id], lit, w);
          break;
          case ADDER: e = bin_adder_add(obj[id], lit, w); break;
          case DPW: e = dpw_add(obj[id], lit, w); break;
          default: die("bad kind");
        }
        printf("%d", (int)e);
        break;
      }
      case 'R':
      case 'U':
      case 'L': {
        struct cell n = {0xabababab, 0, 0xcdcdcdcd};
        if (sscanf(rest, "%lld %llu %llu", &c, &ua, &ub) != 3) die("bad encode");
        n.n = (uint32_t)c;
        if (op[0] == 'R') {
          switch (kind[id]) {
            case TOT: tot_reserve(obj[id], &n.n); break;
            case GTE: gte_reserve(obj[id], &n.n); break;
            case ADDER: bin_adder_reserve(obj[id], &n.n); break;
            case DPW: dpw_reserve(obj[id], &n.n); break;
            default: die("bad kind");
          }
        } else if (op[0] == 'U') {
          switch (kind[id]) {
#define X(K, p) \
  case K: \
    p##_encode(obj[id], &n.n, collect, &s); \
    break;
            AM1S(X)
#undef X
                case TOT : tot_encode_ub(obj[id], ua, ub, &n.n, collect, &s);
            break;
            case GTE: gte_encode_ub(obj[id], ua, ub, &n.n, collect, &s); break;
            case ADDER: bin_adder_encode_ub(obj[id], ua, ub, &n.n, collect, &s); break;
            case DPW: dpw_encode_ub(obj[id], ua, ub, &n.n, collect, &s); break;
            default: die("bad kind");
          }
        } else {
          switch (kind[id]) {
            case TOT: tot_encode_lb(obj[id], ua, ub, &n.n, collect, &s); break;
            case ADDER: bin_adder_encode_lb(obj[id], ua, ub, &n.n, collect, &s); break;
            default: die("bad kind");
          }
        }
        if (n.pre != 0xabababab || n.post != 0xcdcdcdcd) {
          fprintf(stderr, "memory around the variable counter was overwritten\n");
          abort();
        }
        printf("%lu", (unsigned long)n.n);
        break;
      }
      case 'u':
      case 'l': {
        enum MaybeError e = Ok;
        int cells[3] = {0x11111111, 0x22222222, 0x33333333};
        if (sscanf(rest, "%llu", &ua) != 1) die("bad enforce");
        if (kind[id] == TOT) {
          e = op[0] == 'u' ? tot_enforce_ub(obj[id], ua, &cells[1]) : tot_enforce_lb(obj[id], ua, &cells[1]);
          if (cells[0] != 0x11111111 || cells[2] != 0x33333333) abort();
          if (e == Ok && cells[1] != 0) printf("%d ", cells[1]);
        } else if (kind[id] == GTE && op[0] == 'u')
          e = gte_enforce_ub(obj[id], ua, collect, &s);
        else if (kind[id] == ADDER)
          e = op[0] == 'u' ? bin_adder_enforce_ub(obj[id], ua, collect, &s) : bin_adder_enforce_lb(obj[id], ua, collect, &s);
        else if (kind[id] == DPW && op[0] == 'u')
          e = dpw_enforce_ub(obj[id], ua, collect, &s);
        else
          die("bad kind");
        if (e != Ok && s.calls) {
          fprintf(stderr, "literals delivered although the call failed\n");
          abort();
        }
        printf("%d", (int)e);
        break;
      }
      case 'd': { /* watchdog only */
        if (kind[id] != DPW) die("bad kind");
        if (sscanf(rest, "%llu %llu", &ua, &ub) != 2) die("bad dpw call");
        switch (op[1]) {
          case 'c': printf("%llu", (unsigned long long)dpw_coarse_ub(obj[id], ua)); break;
          case 's': printf("%d", (int)dpw_set_precision(obj[id], ua)); break;
          case 'n': printf("%llu", (unsigned long long)dpw_next_precision(obj[id])); break;
          case 'm': printf("%d", dpw_is_max_precision(obj[id]) ? 1 : 0); break;
          case 'l':
            dpw_limit_range(obj[id], ua, ub, collect, &s);
            printf("0");
            break;
          default: die("bad dpw call");
        }
        break;
      }
      default: die("bad op");
    }
    putchar('\n');
    fflush(stdout);
  }
  return 0;
}
