/* Reference definitions of the indicators, used by property C13.
 *
 * REF_X(n, inputs, options, outputs): out[t] is the value the published formula gives for bar t of the
 * n-bar series (t at or after the lookback). Windowed formulas are evaluated from scratch on every bar;
 * recursive ones run from the first bar. No code is shared with the library: only its two settings
 * (unstable period, compatibility) are read through the public query functions.
 */
#include <math.h>
#include "ta_libc.h"

#ifndef NB
#define NB 2048
#endif
#define ZERO(x) (((-0.00000000000001) < (x)) && ((x) < 0.00000000000001))
#define POS(x) ((x) >= 0.00000000000001)

static int unst(TA_FuncUnstId id) { return (int)TA_GetUnstablePeriod(id); }
static int metastock(void) { return TA_GetCompatibility() == TA_COMPATIBILITY_METASTOCK; }

/* ---------------------------------------------------------------- windows */
static double sum(const double *x, int t, int p) { double s = 0; for (int i = t - p + 1; i <= t; i++) s += x[i]; return s; }
static double mean(const double *x, int t, int p) { return sum(x, t, p) / p; }
static double highest(const double *x, int t, int p) { double m = x[t]; for (int i = t - 1; i > t - p; i--) if (x[i] > m) m = x[i]; return m; }
static double lowest(const double *x, int t, int p) { double m = x[t]; for (int i = t - 1; i > t - p; i--) if (x[i] < m) m = x[i]; return m; }
/* the latest bar that holds the extreme */
static int ihighest(const double *x, int t, int p) { int k = t; double m = x[t]; for (int i = t - 1; i > t - p; i--) if (x[i] > m) { m = x[i]; k = i; } return k; }
static int ilowest(const double *x, int t, int p) { int k = t; double m = x[t]; for (int i = t - 1; i > t - p; i--) if (x[i] < m) { m = x[i]; k = i; } return k; }
static double wmean(const double *x, int t, int p) { double s = 0; for (int j = 1; j <= p; j++) s += j * x[t - p + j]; return s / ((double)p * (p + 1) / 2); }
static double tmean(const double *x, int t, int p)
{
    double s = 0, w = 0;
    for (int j = 1; j <= p; j++) { int k = j < p + 1 - j ? j : p + 1 - j; s += k * x[t - p + j]; w += k; }
    return s / w;
}
static double var(const double *x, int t, int p)
{
    double q = 0, m = mean(x, t, p);
    for (int i = t - p + 1; i <= t; i++) q += x[i] * x[i];
    return q / p - m * m;
}
static double dev(const double *x, int t, int p) { double v = var(x, t, p); return POS(v) ? sqrt(v) : 0.0; }
static double truerange(const double *h, const double *l, const double *c, int t)
{
    double r = h[t] - l[t], a = fabs(c[t-1] - h[t]), b = fabs(c[t-1] - l[t]);
    if (a > r) r = a;
    return b > r ? b : r;
}

/* ------------------------------------------------- exponential recursions
 * over x[from..n-1]; the first value is at bar from+p-1: the mean of the first p values
 * (Metastock: the recursion starts at the first value x[base]) */
static void ema(const double *x, int base, int from, int n, int p, double k, double *o)
{
    if (metastock()) {
        if (base < n) o[base] = x[base];
        for (int t = base + 1; t < n; t++) o[t] = o[t-1] + k * (x[t] - o[t-1]);
        return;
    }
    if (from + p - 1 < n) o[from+p-1] = mean(x, from + p - 1, p);
    for (int t = from + p; t < n; t++) o[t] = o[t-1] + k * (x[t] - o[t-1]);
}
static double per(int p) { return 2.0 / (p + 1); }
static int elb(int p) { return p - 1 + unst(TA_FUNC_UNST_EMA); }

void REF_EMA(int n, const double *x, int p, double *o) { ema(x, 0, 0, n, p, per(p), o); }
void REF_WLMA(int n, const double *x, int p, double *o) { ema(x, 0, 0, n, p, 1.0 / p, o); }

static void dema(const double *x, int from, int n, int p, double *o)
{
    double a[NB], b[NB]; int l = elb(p);
    ema(x, from, from, n, p, per(p), a);
    ema(a, from + l, from + l, n, p, per(p), b);
    for (int t = from + 2 * l; t < n; t++) o[t] = 2 * a[t] - b[t];
}
static void tema(const double *x, int from, int n, int p, double *o)
{
    double a[NB], b[NB], c[NB]; int l = elb(p);
    ema(x, from, from, n, p, per(p), a);
    ema(a, from + l, from + l, n, p, per(p), b);
    ema(b, from + 2 * l, from + 2 * l, n, p, per(p), c);
    for (int t = from + 3 * l; t < n; t++) o[t] = 3 * a[t] - 3 * b[t] + c[t];
}
static void t3(const double *x, int from, int n, int p, double v, double *o)
{
    double e[6][NB], c1 = -(v * v * v), c2 = 3 * (v * v - c1), c3 = -6 * (v * v) - 3 * (v - c1), c4 = 1 + 3 * v - c1 + 3 * (v * v);
    const double *s = x;
    for (int j = 0; j < 6; j++) {
        int f = from + j * (p - 1) + (p - 1);
        if (f < n) e[j][f] = mean(s, f, p);
        for (int t = f + 1; t < n; t++) e[j][t] = e[j][t-1] + per(p) * (s[t] - e[j][t-1]);
        s = e[j];
    }
    for (int t = from + 6 * (p - 1); t < n; t++)      /* GD(GD(GD(x))), GD(x) = (1+v) EMA(x) - v EMA(EMA(x)) */
        o[t] = c1 * e[5][t] + c2 * e[4][t] + c3 * e[3][t] + c4 * e[2][t];
}
static void kama(const double *x, int from, int n, int p, double *o)
{
    double k = 0, fast = 2.0 / 3.0, slow = 2.0 / 31.0, prev = x[from + p - 1];
    for (int t = from + p; t < n; t++) {
        double s = 0, er;
        for (int i = t - p + 1; i <= t; i++) s += fabs(x[i] - x[i-1]);
        er = s <= x[t] - x[t-p] || ZERO(s) ? 1.0 : fabs((x[t] - x[t-p]) / s);     /* the first case is the ratio 1 */
        k = er * (fast - slow) + slow;
        prev = prev + k * k * (x[t] - prev);
        o[t] = prev;
    }
}
void REF_DEMA(int n, const double *x, int p, double *o) { dema(x, 0, n, p, o); }
void REF_TEMA(int n, const double *x, int p, double *o) { tema(x, 0, n, p, o); }
void REF_T3(int n, const double *x, int p, double v, double *o) { t3(x, 0, n, p, v, o); }
void REF_KAMA(int n, const double *x, int p, double *o) { kama(x, 0, n, p, o); }
void REF_SMA(int n, const double *x, int p, double *o) { for (int t = p - 1; t < n; t++) o[t] = mean(x, t, p); }
void REF_WMA(int n, const double *x, int p, double *o) { for (int t = p - 1; t < n; t++) o[t] = wmean(x, t, p); }
void REF_TRIMA(int n, const double *x, int p, double *o) { for (int t = p - 1; t < n; t++) o[t] = tmean(x, t, p); }

static int malb(int p, int type)
{
    if (p == 1) return 0;
    switch (type) {
    case TA_MAType_EMA: return elb(p);
    case TA_MAType_DEMA: return 2 * elb(p);
    case TA_MAType_TEMA: return 3 * elb(p);
    case TA_MAType_KAMA: return p + unst(TA_FUNC_UNST_KAMA);
    case TA_MAType_MAMA: return 32 + unst(TA_FUNC_UNST_MAMA);
    case TA_MAType_T3: return 6 * (p - 1) + unst(TA_FUNC_UNST_T3);
    case TA_MAType_WLMA: return p - 1 + unst(TA_FUNC_UNST_WLMA);
    default: return p - 1;
    }
}
static void mama(const double *x, int n, double fast, double slow, double *m, double *f);
/* the average called `type` of x[base..n-1]; recursions start at bar from */
static void ma(const double *x, int base, int from, int n, int p, int type, double *o)
{
    if (p == 1) { for (int t = base; t < n; t++) o[t] = x[t]; return; }
    switch (type) {
    case TA_MAType_SMA: for (int t = base + p - 1; t < n; t++) o[t] = mean(x, t, p); break;
    case TA_MAType_EMA: ema(x, base, from, n, p, per(p), o); break;
    case TA_MAType_WMA: for (int t = base + p - 1; t < n; t++) o[t] = wmean(x, t, p); break;
    case TA_MAType_DEMA: dema(x, from, n, p, o); break;
    case TA_MAType_TEMA: tema(x, from, n, p, o); break;
    case TA_MAType_TRIMA: for (int t = base + p - 1; t < n; t++) o[t] = tmean(x, t, p); break;
    case TA_MAType_KAMA: kama(x, from, n, p, o); break;
    case TA_MAType_T3: t3(x, from, n, p, 0.7, o); break;
    case TA_MAType_WLMA: ema(x, base, from, n, p, 1.0 / p, o); break;
    case TA_MAType_MAMA: { double f[NB]; mama(x + base, n - base, 0.5, 0.05, o + base, f); break; }
    }
}
void REF_MA(int n, const double *x, int p, int type, double *o) { ma(x, 0, 0, n, p, type, o); }
void REF_MAVP(int n, const double *x, const double *per_, int lo, int hi, int type, double *o)
{
    int l = malb(hi, type);
    for (int q = lo; q <= hi; q++) {
        double a[NB];
        ma(x, 0, l - malb(q, type), n, q, type, a);
        for (int t = l; t < n; t++) {
            int p = (int)per_[t];
            if (p < lo) p = lo;
            if (p > hi) p = hi;
            if (p == q) o[t] = a[t];
        }
    }
}

/* -------------------------------------------------- differences of averages */
static void twoma(const double *x, int n, int fast, int ft, int slow, int st, int lb, double *a, double *b)
{
    ma(x, 0, lb - malb(fast, ft), n, fast, ft, a);
    ma(x, 0, lb - malb(slow, st), n, slow, st, b);
}
static void apo(int n, const double *x, int fast, int slow, int type, int pct, double *o)
{
    double a[NB], b[NB];
    if (slow < fast) { int q = slow; slow = fast; fast = q; }
    ma(x, 0, 0, n, fast, type, a);          /* each average runs from the first bar, unlike in MACD */
    ma(x, 0, 0, n, slow, type, b);
    for (int t = malb(slow, type); t < n; t++)
        if (pct) o[t] = ZERO(b[t]) ? 0.0 : 100 * (a[t] - b[t]) / b[t];
        else o[t] = a[t] - b[t];
}
void REF_APO(int n, const double *x, int fast, int slow, int type, double *o) { apo(n, x, fast, slow, type, 0, o); }
void REF_PPO(int n, const double *x, int fast, int slow, int type, double *o) { apo(n, x, fast, slow, type, 1, o); }
static void signalline(int n, int l, int sig, int type, double *m, double *s, double *h)
{
    ma(m, l, l, n, sig, type, s);
    for (int t = l + malb(sig, type); t < n; t++) h[t] = m[t] - s[t];
}
static void macd(int n, const double *x, int fast, double kf, int slow, double ks, int sig, double *m, double *s, double *h)
{
    double a[NB], b[NB]; int l = elb(slow);
    ema(x, 0, slow - fast, n, fast, kf, a);
    ema(x, 0, 0, n, slow, ks, b);
    for (int t = l; t < n; t++) m[t] = a[t] - b[t];
    signalline(n, l, sig, TA_MAType_EMA, m, s, h);
}
void REF_MACD(int n, const double *x, int fast, int slow, int sig, double *m, double *s, double *h)
{
    if (slow < fast) { int q = slow; slow = fast; fast = q; }
    macd(n, x, fast, per(fast), slow, per(slow), sig, m, s, h);
}
void REF_MACDFIX(int n, const double *x, int sig, double *m, double *s, double *h) { macd(n, x, 12, 0.15, 26, 0.075, sig, m, s, h); }
void REF_MACDEXT(int n, const double *x, int fast, int ft, int slow, int st, int sig, int gt, double *m, double *s, double *h)
{
    double a[NB], b[NB]; int l, k;
    if (slow < fast) { int q = slow; slow = fast; fast = q; q = st; st = ft; ft = q; }
    l = malb(slow, st); k = malb(fast, ft);
    if (k > l) l = k;
    twoma(x, n, fast, ft, slow, st, l, a, b);
    for (int t = l; t < n; t++) m[t] = a[t] - b[t];
    signalline(n, l, sig, gt, m, s, h);
}
void REF_TRIX(int n, const double *x, int p, double *o)
{
    double a[NB], b[NB], c[NB]; int l = elb(p);
    ema(x, 0, 0, n, p, per(p), a);
    ema(a, l, l, n, p, per(p), b);
    ema(b, 2 * l, 2 * l, n, p, per(p), c);
    for (int t = 3 * l + 1; t < n; t++) o[t] = c[t-1] != 0.0 ? (c[t] / c[t-1] - 1.0) * 100.0 : 0.0;
}
void REF_BBANDS(int n, const double *x, int p, double up, double dn, int type, double *u, double *m, double *l)
{
    int s = malb(p, type);
    if (s < p - 1) s = p - 1;
    ma(x, 0, s - malb(p, type), n, p, type, m);
    for (int t = s; t < n; t++) { double d = dev(x, t, p); u[t] = m[t] + up * d; l[t] = m[t] - dn * d; }
}
void REF_ACCBANDS(int n, const double *h, const double *l, const double *c, int p, double *u, double *m, double *d)
{
    for (int t = p - 1; t < n; t++) {
        double a = 0, b = 0;
        for (int i = t - p + 1; i <= t; i++) {
            double s = h[i] + l[i], w = ZERO(s) ? 0.0 : 4 * (h[i] - l[i]) / s;
            a += h[i] * (1 + w); b += l[i] * (1 - w);
        }
        u[t] = a / p; d[t] = b / p; m[t] = mean(c, t, p);
    }
}

/* --------------------------------------------------------- element-wise */
#define MATH1(N, E) void REF_##N(int n, const double *x, double *o) { for (int t = 0; t < n; t++) o[t] = E(x[t]); }
MATH1(ACOS, acos) MATH1(ASIN, asin) MATH1(ATAN, atan) MATH1(CEIL, ceil) MATH1(COS, cos) MATH1(COSH, cosh) MATH1(EXP, exp) MATH1(FLOOR, floor)
MATH1(LN, log) MATH1(LOG10, log10) MATH1(SIN, sin) MATH1(SINH, sinh) MATH1(SQRT, sqrt) MATH1(TAN, tan) MATH1(TANH, tanh)
#define MATH2(N, OP) void REF_##N(int n, const double *x, const double *y, double *o) { for (int t = 0; t < n; t++) o[t] = x[t] OP y[t]; }
MATH2(ADD, +) MATH2(SUB, -) MATH2(MULT, *) MATH2(DIV, /)
void REF_AVGPRICE(int n, const double *o, const double *h, const double *l, const double *c, double *r) { for (int t = 0; t < n; t++) r[t] = (o[t] + h[t] + l[t] + c[t]) / 4; }
void REF_MEDPRICE(int n, const double *h, const double *l, double *r) { for (int t = 0; t < n; t++) r[t] = (h[t] + l[t]) / 2; }
void REF_TYPPRICE(int n, const double *h, const double *l, const double *c, double *r) { for (int t = 0; t < n; t++) r[t] = (h[t] + l[t] + c[t]) / 3; }
void REF_WCLPRICE(int n, const double *h, const double *l, const double *c, double *r) { for (int t = 0; t < n; t++) r[t] = (h[t] + l[t] + 2 * c[t]) / 4; }
void REF_BOP(int n, const double *o, const double *h, const double *l, const double *c, double *r)
{ for (int t = 0; t < n; t++) { double d = h[t] - l[t]; r[t] = POS(d) ? (c[t] - o[t]) / d : 0.0; } }
void REF_TRANGE(int n, const double *h, const double *l, const double *c, double *r) { for (int t = 1; t < n; t++) r[t] = truerange(h, l, c, t); }

/* ------------------------------------------------------------- windows */
void REF_SUM(int n, const double *x, int p, double *o) { for (int t = p - 1; t < n; t++) o[t] = sum(x, t, p); }
void REF_MAX(int n, const double *x, int p, double *o) { for (int t = p - 1; t < n; t++) o[t] = highest(x, t, p); }
void REF_MIN(int n, const double *x, int p, double *o) { for (int t = p - 1; t < n; t++) o[t] = lowest(x, t, p); }
void REF_MINMAX(int n, const double *x, int p, double *a, double *b) { for (int t = p - 1; t < n; t++) { a[t] = lowest(x, t, p); b[t] = highest(x, t, p); } }
void REF_MAXINDEX(int n, const double *x, int p, int *o) { for (int t = p - 1; t < n; t++) o[t] = ihighest(x, t, p); }
void REF_MININDEX(int n, const double *x, int p, int *o) { for (int t = p - 1; t < n; t++) o[t] = ilowest(x, t, p); }
void REF_MINMAXINDEX(int n, const double *x, int p, int *a, int *b) { for (int t = p - 1; t < n; t++) { a[t] = ilowest(x, t, p); b[t] = ihighest(x, t, p); } }
void REF_MIDPOINT(int n, const double *x, int p, double *o) { for (int t = p - 1; t < n; t++) o[t] = (highest(x, t, p) + lowest(x, t, p)) / 2; }
void REF_MIDPRICE(int n, const double *h, const double *l, int p, double *o) { for (int t = p - 1; t < n; t++) o[t] = (highest(h, t, p) + lowest(l, t, p)) / 2; }
void REF_AVGDEV(int n, const double *x, int p, double *o)
{
    for (int t = p - 1; t < n; t++) { double m = mean(x, t, p), s = 0; for (int i = t - p + 1; i <= t; i++) s += fabs(x[i] - m); o[t] = s / p; }
}
void REF_VAR(int n, const double *x, int p, double nb, double *o) { for (int t = p - 1; t < n; t++) o[t] = var(x, t, p); }
void REF_STDDEV(int n, const double *x, int p, double nb, double *o) { for (int t = p - 1; t < n; t++) o[t] = dev(x, t, p) * nb; }
void REF_CCI(int n, const double *h, const double *l, const double *c, int p, double *o)
{
    double x[NB];
    REF_TYPPRICE(n, h, l, c, x);
    for (int t = p - 1; t < n; t++) {
        double m = mean(x, t, p), s = 0, d = x[t] - m;
        for (int i = t - p + 1; i <= t; i++) s += fabs(x[i] - m);
        o[t] = ZERO(d) || ZERO(s) ? 0.0 : d / (0.015 * (s / p));
    }
}
void REF_CORREL(int n, const double *x, const double *y, int p, double *o)
{
    for (int t = p - 1; t < n; t++) {
        double sx = 0, sy = 0, xx = 0, yy = 0, xy = 0, q;
        for (int i = t - p + 1; i <= t; i++) { sx += x[i]; sy += y[i]; xx += x[i] * x[i]; yy += y[i] * y[i]; xy += x[i] * y[i]; }
        q = (xx - sx * sx / p) * (yy - sy * sy / p);
        o[t] = POS(q) ? (xy - sx * sy / p) / sqrt(q) : 0.0;
    }
}
void REF_BETA(int n, const double *x, const double *y, int p, double *o)
{
    for (int t = p; t < n; t++) {
        double sx = 0, sy = 0, xx = 0, xy = 0, q;
        for (int i = t - p + 1; i <= t; i++) {
            double a = ZERO(x[i-1]) ? 0.0 : (x[i] - x[i-1]) / x[i-1], b = ZERO(y[i-1]) ? 0.0 : (y[i] - y[i-1]) / y[i-1];
            sx += a; sy += b; xx += a * a; xy += a * b;
        }
        q = p * xx - sx * sx;
        o[t] = ZERO(q) ? 0.0 : (p * xy - sx * sy) / q;
    }
}
static void line(const double *x, int t, int p, double *slope, double *icpt)
{
    double sx = 0, sxx = 0, sy = 0, sxy = 0;
    for (int j = 0; j < p; j++) { double y = x[t - p + 1 + j]; sx += j; sxx += (double)j * j; sy += y; sxy += j * y; }
    *slope = (p * sxy - sx * sy) / (p * sxx - sx * sx);
    *icpt = (sy - *slope * sx) / p;
}
#define LINE(N, E) void REF_##N(int n, const double *x, int p, double *o) { for (int t = p - 1; t < n; t++) { double m, b; line(x, t, p, &m, &b); o[t] = E; } }
LINE(LINEARREG, b + m * (p - 1)) LINE(TSF, b + m * p) LINE(LINEARREG_SLOPE, m) LINE(LINEARREG_INTERCEPT, b) LINE(LINEARREG_ANGLE, atan(m) * (180.0 / 3.14159265358979323846))
#define CHANGE(N, E) void REF_##N(int n, const double *x, int p, double *o) { for (int t = p; t < n; t++) { double a = x[t], b = x[t-p]; o[t] = E; } }
CHANGE(MOM, a - b) CHANGE(ROC, b != 0.0 ? (a / b - 1.0) * 100.0 : 0.0) CHANGE(ROCP, b != 0.0 ? (a - b) / b : 0.0)
CHANGE(ROCR, b != 0.0 ? a / b : 0.0) CHANGE(ROCR100, b != 0.0 ? a / b * 100.0 : 0.0)

/* ------------------------------------------------------------ oscillators */
static void fastk(const double *h, const double *l, const double *c, int from, int n, int p, double *k)
{
    for (int t = from + p - 1; t < n; t++) {
        double a = highest(h, t, p), b = lowest(l, t, p);
        k[t] = a - b != 0.0 ? 100 * (c[t] - b) / (a - b) : 0.0;
    }
}
void REF_STOCHF(int n, const double *h, const double *l, const double *c, int kp, int dp, int dt, double *k, double *d)
{
    fastk(h, l, c, 0, n, kp, k);
    ma(k, kp - 1, kp - 1, n, dp, dt, d);
}
void REF_STOCH(int n, const double *h, const double *l, const double *c, int fp, int kp, int kt, int dp, int dt, double *k, double *d)
{
    double f[NB]; int q = fp - 1;
    fastk(h, l, c, 0, n, fp, f);
    ma(f, q, q, n, kp, kt, k);
    q += malb(kp, kt);
    ma(k, q, q, n, dp, dt, d);
}
void REF_WILLR(int n, const double *h, const double *l, const double *c, int p, double *o)
{
    for (int t = p - 1; t < n; t++) { double a = highest(h, t, p), b = lowest(l, t, p); o[t] = a - b != 0.0 ? -100 * (a - c[t]) / (a - b) : 0.0; }
}
void REF_AROON(int n, const double *h, const double *l, int p, double *dn, double *up)
{
    for (int t = p; t < n; t++) {
        dn[t] = 100.0 * (p - (t - ilowest(l, t, p + 1))) / p;
        up[t] = 100.0 * (p - (t - ihighest(h, t, p + 1))) / p;
    }
}
void REF_AROONOSC(int n, const double *h, const double *l, int p, double *o)
{
    double a[NB], b[NB];
    REF_AROON(n, h, l, p, a, b);
    for (int t = p; t < n; t++) o[t] = b[t] - a[t];
}
void REF_ULTOSC(int n, const double *h, const double *l, const double *c, int p1, int p2, int p3, double *o)
{
    int q;
    if (p1 > p2) { q = p1; p1 = p2; p2 = q; }
    if (p2 > p3) { q = p2; p2 = p3; p3 = q; }
    if (p1 > p2) { q = p1; p1 = p2; p2 = q; }
    for (int t = p3; t < n; t++) {
        double r = 0; int p[3], w[3] = {4, 2, 1};
        p[0] = p1; p[1] = p2; p[2] = p3;
        for (int j = 0; j < 3; j++) {
            double a = 0, b = 0;
            for (int i = t - p[j] + 1; i <= t; i++) { a += c[i] - (l[i] < c[i-1] ? l[i] : c[i-1]); b += truerange(h, l, c, i); }
            if (!ZERO(b)) r += w[j] * (a / b);
        }
        o[t] = 100 * r / 7;
    }
}
void REF_IMI(int n, const double *op, const double *c, int p, double *o)
{
    for (int t = p - 1; t < n; t++) {
        double u = 0, d = 0;
        for (int i = t - p + 1; i <= t; i++) if (c[i] > op[i]) u += c[i] - op[i]; else d += op[i] - c[i];
        o[t] = ZERO(u + d) ? 0.0 : 100.0 * (u / (u + d));
    }
}
void REF_MFI(int n, const double *h, const double *l, const double *c, const double *v, int p, double *o)
{
    double x[NB];
    REF_TYPPRICE(n, h, l, c, x);
    for (int t = p; t < n; t++) {
        double u = 0, d = 0;
        for (int i = t - p + 1; i <= t; i++) { double e = x[i] - x[i-1]; if (e < 0) d += x[i] * v[i]; else if (e > 0) u += x[i] * v[i]; }
        o[t] = u + d < 1.0 ? 0.0 : 100.0 * u / (u + d);
    }
}
/* Wilder's averages of gains and losses */
static void gains(const double *x, int n, int p, int id, int cmo, double *o)
{
    double g = 0, l = 0;
    if (unst(id) == 0 && metastock()) {           /* Metastock: the first value spans p bars only and comes one bar earlier */
        for (int i = 1; i < p && i < n; i++) { double d = x[i] - x[i-1]; if (d < 0) l -= d; else g += d; }
        if (p - 1 < n) o[p-1] = ZERO(g / p + l / p) ? 0.0 : 100.0 * ((cmo ? g / p - l / p : g / p) / (g / p + l / p));
        g = l = 0;
    }
    for (int t = 1; t < n; t++) {
        double d = x[t] - x[t-1], u = d < 0 ? 0 : d, w = d < 0 ? -d : 0;
        if (t <= p) { g += u / p; l += w / p; }
        else { g = (g * (p - 1) + u) / p; l = (l * (p - 1) + w) / p; }
        if (t >= p) o[t] = ZERO(g + l) ? 0.0 : 100.0 * ((cmo ? g - l : g) / (g + l));
    }
}
void REF_RSI(int n, const double *x, int p, double *o) { gains(x, n, p, TA_FUNC_UNST_RSI, 0, o); }
void REF_CMO(int n, const double *x, int p, double *o) { gains(x, n, p, TA_FUNC_UNST_CMO, 1, o); }
void REF_STOCHRSI(int n, const double *x, int p, int kp, int dp, int dt, double *k, double *d)
{
    double r[NB]; int b, c, l = TA_RSI_Lookback(p);
    TA_RSI(0, n - 1, x, p, &b, &c, r + l);                                     /* decided by its own definition */
    TA_STOCHF(0, n - 1 - l, r + l, r + l, r + l, kp, dp, dt, &b, &c, k + l + TA_STOCHF_Lookback(kp, dp, dt), d + l + TA_STOCHF_Lookback(kp, dp, dt));
}

/* ----------------------------------------------------- directional movement */
static double plusdm(const double *h, const double *l, int t) { double a = h[t] - h[t-1], b = l[t-1] - l[t]; return a > 0 && a > b ? a : 0.0; }
static double minusdm(const double *h, const double *l, int t) { double a = h[t] - h[t-1], b = l[t-1] - l[t]; return b > 0 && b > a ? b : 0.0; }
static void dm(const double *h, const double *l, int t, double *p, double *m)
{
    double a = h[t] - h[t-1], b = l[t-1] - l[t];
    *p = *m = 0;
    if (b > 0 && a < b) *m = b;
    else if (a > 0 && a > b) *p = a;
}
static double wilder(double prev, double x, int t, int p) { return t < p ? prev + x : prev - prev / p + x; }   /* sum of p-1 values, then smoothed */
void REF_PLUS_DM(int n, const double *h, const double *l, int p, double *o)
{
    double s = 0;
    for (int t = 1; t < n; t++) { s = p == 1 ? plusdm(h, l, t) : wilder(s, plusdm(h, l, t), t, p); o[t] = s; }
}
void REF_MINUS_DM(int n, const double *h, const double *l, int p, double *o)
{
    double s = 0;
    for (int t = 1; t < n; t++) { s = p == 1 ? minusdm(h, l, t) : wilder(s, minusdm(h, l, t), t, p); o[t] = s; }
}
static void di(int n, const double *h, const double *l, const double *c, int p, int plus, double *o)
{
    double s = 0, r = 0;
    for (int t = 1; t < n; t++) {
        double d = plus ? plusdm(h, l, t) : minusdm(h, l, t), tr = truerange(h, l, c, t);
        if (p == 1) { o[t] = ZERO(tr) ? 0.0 : d / tr; continue; }
        s = wilder(s, d, t, p); r = wilder(r, tr, t, p);
        o[t] = ZERO(r) ? 0.0 : 100.0 * (s / r);
    }
}
void REF_PLUS_DI(int n, const double *h, const double *l, const double *c, int p, double *o) { di(n, h, l, c, p, 1, o); }
void REF_MINUS_DI(int n, const double *h, const double *l, const double *c, int p, double *o) { di(n, h, l, c, p, 0, o); }
/* 100 |+DI - -DI| / (+DI + -DI); 0 tells that it is undefined */
static int dx(double a, double b, double r, double *o)
{
    double x, y;
    if (ZERO(r)) return 0;
    x = 100.0 * (a / r); y = 100.0 * (b / r);
    if (ZERO(x + y)) return 0;
    *o = 100.0 * (fabs(y - x) / (x + y));
    return 1;
}
void REF_DX(int n, const double *h, const double *l, const double *c, int p, double *o)
{
    double a = 0, b = 0, r = 0, prev = 0, u, d;
    for (int t = 1; t < n; t++) {
        dm(h, l, t, &u, &d); a = wilder(a, u, t, p); b = wilder(b, d, t, p); r = wilder(r, truerange(h, l, c, t), t, p);
        if (t >= p + unst(TA_FUNC_UNST_DX)) { dx(a, b, r, &prev); o[t] = prev; }      /* keeps the last value where undefined */
    }
}
void REF_ADX(int n, const double *h, const double *l, const double *c, int p, double *o)
{
    double a = 0, b = 0, r = 0, x, s = 0, u, d;
    for (int t = 1; t < n; t++) {
        dm(h, l, t, &u, &d); a = wilder(a, u, t, p); b = wilder(b, d, t, p); r = wilder(r, truerange(h, l, c, t), t, p);
        if (t < p) continue;
        if (t < 2 * p) { if (dx(a, b, r, &x)) s += x / p; }
        else if (dx(a, b, r, &x)) s = (s * (p - 1) + x) / p;
        o[t] = s;
    }
}
void REF_ADXR(int n, const double *h, const double *l, const double *c, int p, double *o)
{
    double a[NB];
    REF_ADX(n, h, l, c, p, a);
    for (int t = 3 * p - 2; t < n; t++) o[t] = (a[t] + a[t-p+1]) / 2;
}
void REF_ATR(int n, const double *h, const double *l, const double *c, int p, double *o)
{
    double s = 0;
    for (int t = 1; t < n; t++) {
        if (p == 1) s = truerange(h, l, c, t);
        else if (t <= p) s += truerange(h, l, c, t) / p;
        else s = (s * (p - 1) + truerange(h, l, c, t)) / p;
        o[t] = s;
    }
}
void REF_NATR(int n, const double *h, const double *l, const double *c, int p, double *o)
{
    REF_ATR(n, h, l, c, p, o);
    if (p > 1) for (int t = 1; t < n; t++) o[t] = ZERO(c[t]) ? 0.0 : 100.0 * o[t] / c[t];
}

/* --------------------------------------------------------------- volume */
void REF_AD(int n, const double *h, const double *l, const double *c, const double *v, double *o)
{
    double s = 0;
    for (int t = 0; t < n; t++) { if (h[t] > l[t]) s += ((c[t] - l[t]) - (h[t] - c[t])) / (h[t] - l[t]) * v[t]; o[t] = s; }
}
void REF_ADOSC(int n, const double *h, const double *l, const double *c, const double *v, int fast, int slow, double *o)
{
    double a[NB], f, s;
    REF_AD(n, h, l, c, v, a);
    f = s = a[0];
    for (int t = 1; t < n; t++) { f += per(fast) * (a[t] - f); s += per(slow) * (a[t] - s); o[t] = f - s; }
}
void REF_OBV(int n, const double *c, const double *v, double *o)
{
    double s = v[0];
    for (int t = 0; t < n; t++) { if (t && c[t] > c[t-1]) s += v[t]; if (t && c[t] < c[t-1]) s -= v[t]; o[t] = s; }
}
void REF_NVI(int n, const double *c, const double *v, double *o)
{ double s = 100.0; for (int t = 1; t < n; t++) { if (v[t] < v[t-1]) s *= c[t] / c[t-1]; o[t] = s; } }
void REF_PVI(int n, const double *c, const double *v, double *o)
{ double s = 100.0; for (int t = 1; t < n; t++) { if (v[t] > v[t-1]) s *= c[t] / c[t-1]; o[t] = s; } }
void REF_PVT(int n, const double *c, const double *v, double *o)
{ double s = 0.0; for (int t = 1; t < n; t++) { s += v[t] * (c[t] / c[t-1] - 1.0); o[t] = s; } }

/* ------------------------------------------------------- parabolic stop */
/* one side only: a short position is the long rule on negated prices */
static void sar(int n, const double *h, const double *l, double start, double offs, const double *init, const double *inc, const double *max, int sign, double *o)
{
    int lng = start > 0 ? 1 : start < 0 ? 0 : !(minusdm(h, l, 1) > 0);
    double ep = lng ? h[1] : -l[1], s, af = lng ? init[0] : init[1];
    s = start != 0 ? start : lng ? l[0] : -h[0];
    /* in "up" coordinates (negated when short): stop s below the prices */
    for (int t = 1; t < n; t++) {
        int p = t > 1 ? t - 1 : 1, side = lng ? 0 : 1;
        double lo = lng ? l[t] : -h[t], hi = lng ? h[t] : -l[t], plo = lng ? l[p] : -h[p], phi = lng ? h[p] : -l[p];
        if (lo <= s) {                                     /* touched: reverse */
            double x = -ep;                                /* the extreme is the stop of the other side */
            lng = !lng; side = 1 - side;
            plo = -phi; phi = lo; lo = -hi; hi = -phi;     /* mirrored bar: lo, hi of today, plo of the bar before */
            if (x > plo) x = plo;
            if (x > lo) x = lo;
            x = lng ? x - x * offs : x + x * offs;
            o[t] = lng ? x : sign ? x : -x;
            af = side ? init[1] : init[0];
            ep = hi;
            s = x + af * (ep - x);
            if (s > plo) s = plo;
            if (s > lo) s = lo;
        } else {
            double m = side ? max[1] : max[0];
            o[t] = lng ? s : sign ? s : -s;
            if (hi > ep) { ep = hi; af += side ? inc[1] : inc[0]; if (af > m) af = m; }
            s = s + af * (ep - s);
            if (s > plo) s = plo;
            if (s > lo) s = lo;
        }
    }
}
void REF_SAR(int n, const double *h, const double *l, double a, double m, double *o)
{
    double init[2], mx[2];
    if (a > m) a = m;
    init[0] = init[1] = a; mx[0] = mx[1] = m;
    sar(n, h, l, 0.0, 0.0, init, init, mx, 0, o);
}
void REF_SAREXT(int n, const double *h, const double *l, double start, double offs, double il, double al, double ml, double is, double as, double ms, double *o)
{
    double init[2], inc[2], mx[2];
    init[0] = il < ml ? il : ml; init[1] = is < ms ? is : ms;
    inc[0] = al < ml ? al : ml; inc[1] = as < ms ? as : ms;
    mx[0] = ml; mx[1] = ms;
    sar(n, h, l, start, offs, init, inc, mx, 1, o);
}

/* -------------------------------------------- Ehlers' Hilbert transform */
struct ht { double smooth[NB], I[NB], Q[NB], period[NB], speriod[NB]; int from; };
static double at(const double *x, int from, int t) { return t < from ? 0.0 : x[t]; }
static double hilbert(const double *x, int from, int t, double adj)
{ return (-0.0962 * at(x, from, t-6) + 0.0962 * at(x, from, t) - 0.5769 * at(x, from, t-4) + 0.5769 * at(x, from, t-2)) * adj; }
static void cycle(const double *x, int n, int from, struct ht *z)
{
    double det[NB], I2 = 0, Q2 = 0, Re = 0, Im = 0, period = 0, sp = 0, r2d = 45.0 / atan(1);
    double *I = z->I, *Q = z->Q;
    z->from = from;
    for (int t = from; t < n; t++) {
        double adj = 0.075 * period + 0.54, ji, jq, i2, q2, prev = period;
        z->smooth[t] = (4 * x[t] + 3 * x[t-1] + 2 * x[t-2] + x[t-3]) * 0.1;
        det[t] = hilbert(z->smooth, from, t, adj);
        Q[t] = hilbert(det, from, t, adj);
        I[t] = at(det, from, t - 3);
        ji = hilbert(I, from, t, adj);
        jq = hilbert(Q, from, t, adj);
        i2 = 0.2 * (I[t] - jq) + 0.8 * I2;
        q2 = 0.2 * (Q[t] + ji) + 0.8 * Q2;
        Re = 0.2 * (i2 * I2 + q2 * Q2) + 0.8 * Re;
        Im = 0.2 * (i2 * Q2 - q2 * I2) + 0.8 * Im;
        I2 = i2; Q2 = q2;
        if (Im != 0.0 && Re != 0.0) period = 360.0 / (atan(Im / Re) * r2d);
        if (period > 1.5 * prev) period = 1.5 * prev;
        if (period < 0.67 * prev) period = 0.67 * prev;
        if (period < 6) period = 6;
        else if (period > 50) period = 50;
        period = 0.2 * period + 0.8 * prev;
        sp = 0.33 * period + 0.67 * sp;
        z->period[t] = period; z->speriod[t] = sp;
    }
}
void REF_HT_DCPERIOD(int n, const double *x, double *o) { struct ht z; cycle(x, n, 12, &z); for (int t = 32; t < n; t++) o[t] = z.speriod[t]; }
void REF_HT_PHASOR(int n, const double *x, double *i, double *q) { struct ht z; cycle(x, n, 12, &z); for (int t = 32; t < n; t++) { i[t] = z.I[t]; q[t] = z.Q[t]; } }
static void mama(const double *x, int n, double fast, double slow, double *m, double *f)
{
    struct ht z; double prev = 0, a = 0, b = 0, r2d = 45.0 / atan(1);
    cycle(x, n, 12, &z);
    for (int t = 12; t < n; t++) {
        double ph = z.I[t] != 0.0 ? atan(z.Q[t] / z.I[t]) * r2d : 0.0, d = prev - ph, k;
        prev = ph;
        if (d < 1.0) d = 1.0;
        if (d > 1.0) { k = fast / d; if (k < slow) k = slow; }
        else k = fast;
        a = k * x[t] + (1 - k) * a;
        b = 0.5 * k * a + (1 - 0.5 * k) * b;
        if (t >= 32) { m[t] = a; f[t] = b; }
    }
}
void REF_MAMA(int n, const double *x, double fast, double slow, double *m, double *f) { mama(x, n, fast, slow, m, f); }
static void phase(const struct ht *z, int n, double *o)
{
    double ph = 0, one = atan(1);
    for (int t = z->from; t < n; t++) {
        int p = (int)(z->speriod[t] + 0.5);
        double re = 0, im = 0;      /* p is at most 50 */
        for (int i = 0; i < p; i++) { double a = ((double)i * (one * 8.0)) / (double)p, y = at(z->smooth, z->from, t - i % 50); re += sin(a) * y; im += cos(a) * y; }
        if (fabs(im) > 0.0) ph = atan(re / im) * (45.0 / one);
        else if (re < 0.0) ph -= 90.0;
        else if (re > 0.0) ph += 90.0;
        ph += 90.0;
        ph += 360.0 / z->speriod[t];
        if (im < 0.0) ph += 180.0;
        if (ph > 315.0) ph -= 360.0;
        o[t] = ph;
    }
}
static void trendline(const struct ht *z, const double *x, int n, double *o)
{
    double a[NB];
    for (int t = z->from; t < n; t++) {
        int p = (int)(z->speriod[t] + 0.5);
        double s = 0;
        for (int i = 0; i < p; i++) s += x[t-i];
        a[t] = p > 0 ? s / p : s;
        o[t] = (4 * a[t] + 3 * at(a, z->from, t-1) + 2 * at(a, z->from, t-2) + at(a, z->from, t-3)) / 10.0;
    }
}
void REF_HT_DCPHASE(int n, const double *x, double *o) { struct ht z; cycle(x, n, 37, &z); phase(&z, n, o); }
void REF_HT_SINE(int n, const double *x, double *s, double *l)
{
    struct ht z; double ph[NB], d2r = 1.0 / (45.0 / atan(1));
    cycle(x, n, 37, &z);
    phase(&z, n, ph);
    for (int t = 63; t < n; t++) { s[t] = sin(ph[t] * d2r); l[t] = sin((ph[t] + 45) * d2r); }
}
void REF_HT_TRENDLINE(int n, const double *x, double *o) { struct ht z; cycle(x, n, 37, &z); trendline(&z, x, n, o); }
void REF_HT_TRENDMODE(int n, const double *x, int *o)
{
    struct ht z; double ph[NB], tl[NB], d2r = 1.0 / (45.0 / atan(1)), ps = 0, pl = 0, pp = 0; int days = 0;
    cycle(x, n, 37, &z);
    phase(&z, n, ph);
    trendline(&z, x, n, tl);
    for (int t = 37; t < n; t++) {
        double s = sin(ph[t] * d2r), l = sin((ph[t] + 45) * d2r), sp = z.speriod[t], d = ph[t] - pp;
        int m = 1;
        if ((s > l && ps <= pl) || (s < l && ps >= pl)) { days = 0; m = 0; }
        days++;
        if (days < 0.5 * sp) m = 0;
        if (sp != 0.0 && d > 0.67 * 360.0 / sp && d < 1.5 * 360.0 / sp) m = 0;
        if (tl[t] != 0.0 && fabs((z.smooth[t] - tl[t]) / tl[t]) >= 0.015) m = 1;
        o[t] = m;
        ps = s; pl = l; pp = ph[t];
    }
}
