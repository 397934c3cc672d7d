/* Reference definitions of the candlestick patterns, used by property C13.
 *
 * A pattern is a condition on the last one to five candles; candle k is the one k bars before the current one.
 * "long", "short", "near" ... compare with the candle setting of that name: its factor times the average of its
 * range over the avgPeriod candles before the candle it is applied to (over that candle itself when avgPeriod is 0),
 * halved for ranges of the type Shadows. Every average is computed from scratch; candle settings are read from the
 * library's global settings.
 */
#include <math.h>
#include "ta_libc.h"
#include "ta_memory.h"
#include "ta_global.h"

struct cdl { const double *o, *h, *l, *c; int t; };
static double body(const struct cdl *x, int i) { return fabs(x->c[i] - x->o[i]); }
static double top(const struct cdl *x, int i) { return x->c[i] >= x->o[i] ? x->c[i] : x->o[i]; }
static double bot(const struct cdl *x, int i) { return x->c[i] >= x->o[i] ? x->o[i] : x->c[i]; }
static double range(const struct cdl *x, TA_CandleSettingType s, int i)
{
    switch (TA_Globals->candleSettings[s].rangeType) {
    case TA_RangeType_RealBody: return body(x, i);
    case TA_RangeType_HighLow: return x->h[i] - x->l[i];
    case TA_RangeType_Shadows: return (x->h[i] - top(x, i)) + (bot(x, i) - x->l[i]);
    default: return 0.0;
    }
}
/* what candle k back is compared with for setting s */
static double average(const struct cdl *x, TA_CandleSettingType s, int k)
{
    int i = x->t - k, p = TA_Globals->candleSettings[s].avgPeriod;
    double a = 0;
    if (p == 0) a = range(x, s, i);
    else { for (int j = i - p; j < i; j++) a += range(x, s, j); a /= p; }
    a *= TA_Globals->candleSettings[s].factor;
    return TA_Globals->candleSettings[s].rangeType == TA_RangeType_Shadows ? a / 2.0 : a;
}
#define O(k) (o[t-(k)])
#define H(k) (h[t-(k)])
#define L(k) (l[t-(k)])
#define C(k) (c[t-(k)])
#define BODY(k) body(&x, t-(k))
#define TOP(k) top(&x, t-(k))
#define BOT(k) bot(&x, t-(k))
#define US(k) (h[t-(k)] - TOP(k))                 /* upper, lower shadow */
#define LS(k) (BOT(k) - l[t-(k)])
#define COL(k) ((c[t-(k)] >= o[t-(k)]) ? 1 : -1)    /* white, black */
#define AVG(s,k) average(&x, TA_##s, k)
#define GAPUP(a,b) (BOT(a) > TOP(b))              /* the bodies do not touch */
#define GAPDN(a,b) (TOP(a) < BOT(b))
#define CGAPUP(a,b) (L(a) > H(b))                 /* the candles do not touch */
#define CGAPDN(a,b) (H(a) < L(b))
#define P(s) (TA_Globals->candleSettings[TA_##s].avgPeriod)

#define CDL(name, opt, lookback, rule) \
void REF_CDL##name(int n, const double *o, const double *h, const double *l, const double *c, opt int *out) \
{ \
    for (int t = lookback; t < n; t++) { \
        struct cdl x = { o, h, l, c, t }; \
        int r = 0; \
        rule \
        out[t] = r; \
    } \
}
#define PEN double penetration,
#define NO
#define max(a,b) ((a) > (b) ? (a) : (b))
CDL(2CROWS, NO, P(BodyLong) + 2,
    if( COL(2) == 1 && BODY(2) > AVG(BodyLong,2) && COL(1) == -1 && GAPUP(1,2) && COL(0) == -1 && O(0) < O(1) && O(0) > C(1) && C(0) > O(2) && C(0) <
       C(2) ) r = -100; )
CDL(3BLACKCROWS, NO, P(ShadowVeryShort) + 3,
    if( COL(3) == 1 && COL(2) == -1 && LS(2) < AVG(ShadowVeryShort,2) && COL(1) == -1 && LS(1) < AVG(ShadowVeryShort,1) && COL(0) == -1 && LS(0) <
       AVG(ShadowVeryShort,0) && O(1) < O(2) && O(1) > C(2) && O(0) < O(1) && O(0) > C(1) && H(3) > C(2) && C(2) > C(1) && C(1) > C(0) ) r = -100; )
CDL(3INSIDE, NO, max( P(BodyShort), P(BodyLong) ) + 2,
    if( BODY(2) > AVG(BodyLong,2) && BODY(1) <= AVG(BodyShort,1) && TOP(1) < TOP(2) && BOT(1) > BOT(2) && ( ( COL(2) == 1 && COL(0) == -1 && C(0) <
       O(2) ) || ( COL(2) == -1 && COL(0) == 1 && C(0) > O(2) ) ) ) r = -100 * COL(2); )
CDL(3LINESTRIKE, NO, P(Near) + 3,
    if( COL(3) == COL(2) && COL(2) == COL(1) && COL(0) == -COL(1) && O(2) >= BOT(3) - AVG(Near,3) && O(2) <= TOP(3) + AVG(Near,3) && O(1) >= BOT(2) -
       AVG(Near,2) && O(1) <= TOP(2) + AVG(Near,2) && ( ( COL(1) == 1 && C(1) > C(2) && C(2) > C(3) && O(0) > C(1) && C(0) < O(3) ) || ( COL(1) == -1
       && C(1) < C(2) && C(2) < C(3) && O(0) < C(1) && C(0) > O(3) ) ) ) r = 100 * COL(1); )
CDL(3OUTSIDE, NO, 3,
    if( ( COL(1) == 1 && COL(2) == -1 && C(1) > O(2) && O(1) < C(2) && C(0) > C(1) ) || ( COL(1) == -1 && COL(2) == 1 && O(1) > C(2) && C(1) < O(2) &&
       C(0) < C(1) ) ) { r = 100 * COL(1); } )
CDL(3STARSINSOUTH, NO, max( max( P(ShadowVeryShort), P(ShadowLong) ), max( P(BodyLong), P(BodyShort) ) ) + 2,
    if( COL(2) == -1 && COL(1) == -1 && COL(0) == -1 && BODY(2) > AVG(BodyLong,2) && LS(2) > AVG(ShadowLong,2) && BODY(1) < BODY(2) && O(1) > C(2) &&
       O(1) <= H(2) && L(1) < C(2) && L(1) >= L(2) && LS(1) > AVG(ShadowVeryShort,1) && BODY(0) < AVG(BodyShort,0) && LS(0) < AVG(ShadowVeryShort,0)
       && US(0) < AVG(ShadowVeryShort,0) && L(0) > L(1) && H(0) < H(1) ) r = 100; )
CDL(3WHITESOLDIERS, NO, max( max( P(ShadowVeryShort), P(BodyShort) ), max( P(Far), P(Near) ) ) + 2,
    if( COL(2) == 1 && US(2) < AVG(ShadowVeryShort,2) && COL(1) == 1 && US(1) < AVG(ShadowVeryShort,1) && COL(0) == 1 && US(0) <
       AVG(ShadowVeryShort,0) && C(0) > C(1) && C(1) > C(2) && O(1) > O(2) && O(1) <= C(2) + AVG(Near,2) && O(0) > O(1) && O(0) <= C(1) + AVG(Near,1)
       && BODY(1) > BODY(2) - AVG(Far,2) && BODY(0) > BODY(1) - AVG(Far,1) && BODY(0) > AVG(BodyShort,0) ) r = 100; )
CDL(ABANDONEDBABY, PEN, max( max( P(BodyDoji), P(BodyLong) ), P(BodyShort) ) + 2,
    if( BODY(2) > AVG(BodyLong,2) && BODY(1) <= AVG(BodyDoji,1) && BODY(0) > AVG(BodyShort,0) && ( ( COL(2) == 1 && COL(0) == -1 && C(0) < C(2) -
       BODY(2) * penetration && CGAPUP(1,2) && CGAPDN(0,1) ) || ( COL(2) == -1 && COL(0) == 1 && C(0) > C(2) + BODY(2) * penetration && CGAPDN(1,2) &&
       CGAPUP(0,1) ) ) ) { r = 100 * COL(0); } )
CDL(ADVANCEBLOCK, NO, max( max( max( P(ShadowLong), P(ShadowShort) ), max( P(Far), P(Near) ) ), P(BodyLong) ) + 2,
    if( COL(2) == 1 && COL(1) == 1 && COL(0) == 1 && C(0) > C(1) && C(1) > C(2) && O(1) > O(2) && O(1) <= C(2) + AVG(Near,2) && O(0) > O(1) && O(0) <=
       C(1) + AVG(Near,1) && BODY(2) > AVG(BodyLong,2) && US(2) < AVG(ShadowShort,2) && ( ( BODY(1) < BODY(2) - AVG(Far,2) && BODY(0) < BODY(1) +
       AVG(Near,1) ) || ( BODY(0) < BODY(1) - AVG(Far,1) ) || ( BODY(0) < BODY(1) && BODY(1) < BODY(2) && ( US(0) > AVG(ShadowShort,0) || US(1) >
       AVG(ShadowShort,1) ) ) || ( BODY(0) < BODY(1) && US(0) > AVG(ShadowLong,0) ) ) ) r = -100; )
CDL(BELTHOLD, NO, max( P(BodyLong), P(ShadowVeryShort) ),
    if( BODY(0) > AVG(BodyLong,0) && ( ( COL(0) == 1 && LS(0) < AVG(ShadowVeryShort,0) ) || ( COL(0) == -1 && US(0) < AVG(ShadowVeryShort,0) ) ) ) r =
       100 * COL(0); )
CDL(BREAKAWAY, NO, P(BodyLong) + 4,
    if( BODY(4) > AVG(BodyLong,4) && COL(4) == COL(3) && COL(3) == COL(1) && COL(1) == -COL(0) && ( ( COL(4) == -1 && GAPDN(3,4) && H(2) < H(3) &&
       L(2) < L(3) && H(1) < H(2) && L(1) < L(2) && C(0) > O(3) && C(0) < C(4) ) || ( COL(4) == 1 && GAPUP(3,4) && H(2) > H(3) && L(2) > L(3) && H(1)
       > H(2) && L(1) > L(2) && C(0) < O(3) && C(0) > C(4) ) ) ) r = 100 * COL(0); )
CDL(CLOSINGMARUBOZU, NO, max( P(BodyLong), P(ShadowVeryShort) ),
    if( BODY(0) > AVG(BodyLong,0) && ( ( COL(0) == 1 && US(0) < AVG(ShadowVeryShort,0) ) || ( COL(0) == -1 && LS(0) < AVG(ShadowVeryShort,0) ) ) ) r =
       100 * COL(0); )
CDL(CONCEALBABYSWALL, NO, P(ShadowVeryShort) + 3,
    if( COL(3) == -1 && COL(2) == -1 && COL(1) == -1 && COL(0) == -1 && LS(3) < AVG(ShadowVeryShort,3) && US(3) < AVG(ShadowVeryShort,3) && LS(2) <
       AVG(ShadowVeryShort,2) && US(2) < AVG(ShadowVeryShort,2) && GAPDN(1,2) && US(1) > AVG(ShadowVeryShort,1) && H(1) > C(2) && H(0) > H(1) && L(0)
       < L(1) ) r = 100; )
CDL(COUNTERATTACK, NO, max( P(Equal), P(BodyLong) ) + 1,
    if( COL(1) == -COL(0) && BODY(1) > AVG(BodyLong,1) && BODY(0) > AVG(BodyLong,0) && C(0) <= C(1) + AVG(Equal,1) && C(0) >= C(1) - AVG(Equal,1) ) r
       = 100 * COL(0); )
CDL(DARKCLOUDCOVER, PEN, P(BodyLong) + 1,
    if( COL(1) == 1 && BODY(1) > AVG(BodyLong,1) && COL(0) == -1 && O(0) > H(1) && C(0) > O(1) && C(0) < C(1) - BODY(1) * penetration ) r = -100; )
CDL(DOJI, NO, P(BodyDoji),
    if( BODY(0) <= AVG(BodyDoji,0) ) r = 100; )
CDL(DOJISTAR, NO, max( P(BodyDoji), P(BodyLong) ) + 1,
    if( BODY(1) > AVG(BodyLong,1) && BODY(0) <= AVG(BodyDoji,0) && ( ( COL(1) == 1 && GAPUP(0,1) ) || ( COL(1) == -1 && GAPDN(0,1) ) ) ) r = -100 *
       COL(1); )
CDL(DRAGONFLYDOJI, NO, max( P(BodyDoji), P(ShadowVeryShort) ),
    if( BODY(0) <= AVG(BodyDoji,0) && US(0) < AVG(ShadowVeryShort,0) && LS(0) > AVG(ShadowVeryShort,0) ) r = 100; )
CDL(ENGULFING, NO, 2,
    if( ( COL(0) == 1 && COL(1) == -1 && ( ( C(0) >= O(1) && O(0) < C(1) ) || ( C(0) > O(1) && O(0) <= C(1) ) ) ) || ( COL(0) == -1 && COL(1) == 1 &&
       ( ( O(0) >= C(1) && C(0) < O(1) ) || ( O(0) > C(1) && C(0) <= O(1) ) ) ) ) if( O(0) != C(1) && C(0) != O(1) ) r = 100 * COL(0); else r = 80 *
       COL(0); )
CDL(EVENINGDOJISTAR, PEN, max( max( P(BodyDoji), P(BodyLong) ), P(BodyShort) ) + 2,
    if( BODY(2) > AVG(BodyLong,2) && COL(2) == 1 && BODY(1) <= AVG(BodyDoji,1) && GAPUP(1,2) && BODY(0) > AVG(BodyShort,0) && COL(0) == -1 && C(0) <
       C(2) - BODY(2) * penetration ) r = -100; )
CDL(EVENINGSTAR, PEN, max( P(BodyShort), P(BodyLong) ) + 2,
    if( BODY(2) > AVG(BodyLong,2) && COL(2) == 1 && BODY(1) <= AVG(BodyShort,1) && GAPUP(1,2) && BODY(0) > AVG(BodyShort,0) && COL(0) == -1 && C(0) <
       C(2) - BODY(2) * penetration ) r = -100; )
CDL(GAPSIDESIDEWHITE, NO, max( P(Near), P(Equal) ) + 2,
    if( ( ( GAPUP(1,2) && GAPUP(0,2) ) || ( GAPDN(1,2) && GAPDN(0,2) ) ) && COL(1) == 1 && COL(0) == 1 && BODY(0) >= BODY(1) - AVG(Near,1) && BODY(0)
       <= BODY(1) + AVG(Near,1) && O(0) >= O(1) - AVG(Equal,1) && O(0) <= O(1) + AVG(Equal,1) ) r = ( GAPUP(1,2) ? 100 : -100 ); )
CDL(GRAVESTONEDOJI, NO, max( P(BodyDoji), P(ShadowVeryShort) ),
    if( BODY(0) <= AVG(BodyDoji,0) && LS(0) < AVG(ShadowVeryShort,0) && US(0) > AVG(ShadowVeryShort,0) ) r = 100; )
CDL(HAMMER, NO, max( max( max( P(BodyShort), P(ShadowLong) ), P(ShadowVeryShort) ), P(Near) ) + 1,
    if( BODY(0) < AVG(BodyShort,0) && LS(0) > AVG(ShadowLong,0) && US(0) < AVG(ShadowVeryShort,0) && BOT(0) <= L(1) + AVG(Near,1) ) r = 100; )
CDL(HANGINGMAN, NO, max( max( max( P(BodyShort), P(ShadowLong) ), P(ShadowVeryShort) ), P(Near) ) + 1,
    if( BODY(0) < AVG(BodyShort,0) && LS(0) > AVG(ShadowLong,0) && US(0) < AVG(ShadowVeryShort,0) && BOT(0) >= H(1) - AVG(Near,1) ) r = -100; )
CDL(HARAMI, NO, max( P(BodyShort), P(BodyLong) ) + 1,
    if( BODY(1) > AVG(BodyLong,1) && BODY(0) <= AVG(BodyShort,0) ) if ( TOP(0) < TOP(1) && BOT(0) > BOT(1) ) r = -100 * COL(1); else if ( TOP(0) <=
       TOP(1) && BOT(0) >= BOT(1) ) r = -80 * COL(1); else r = 0; else r = 0;)
CDL(HARAMICROSS, NO, max( P(BodyDoji), P(BodyLong) ) + 1,
    if( BODY(1) > AVG(BodyLong,1) && BODY(0) <= AVG(BodyDoji,0) ) if ( TOP(0) < TOP(1) && BOT(0) > BOT(1) ) r = -100 * COL(1); else if ( TOP(0) <=
       TOP(1) && BOT(0) >= BOT(1) ) r = -80 * COL(1); else r = 0; else r = 0;)
CDL(HIGHWAVE, NO, max( P(BodyShort), P(ShadowVeryLong) ),
    if( BODY(0) < AVG(BodyShort,0) && US(0) > AVG(ShadowVeryLong,0) && LS(0) > AVG(ShadowVeryLong,0) ) r = 100 * COL(0); )
CDL(HOMINGPIGEON, NO, max( P(BodyShort), P(BodyLong) ) + 1,
    if( COL(1) == -1 && COL(0) == -1 && BODY(1) > AVG(BodyLong,1) && BODY(0) <= AVG(BodyShort,0) && O(0) < O(1) && C(0) > C(1) ) r = 100; )
CDL(IDENTICAL3CROWS, NO, max( P(ShadowVeryShort), P(Equal) ) + 2,
    if( COL(2) == -1 && LS(2) < AVG(ShadowVeryShort,2) && COL(1) == -1 && LS(1) < AVG(ShadowVeryShort,1) && COL(0) == -1 && LS(0) <
       AVG(ShadowVeryShort,0) && C(2) > C(1) && C(1) > C(0) && O(1) <= C(2) + AVG(Equal,2) && O(1) >= C(2) - AVG(Equal,2) && O(0) <= C(1) +
       AVG(Equal,1) && O(0) >= C(1) - AVG(Equal,1) ) r = -100; )
CDL(INNECK, NO, max( P(Equal), P(BodyLong) ) + 1,
    if( COL(1) == -1 && BODY(1) > AVG(BodyLong,1) && COL(0) == 1 && O(0) < L(1) && C(0) <= C(1) + AVG(Equal,1) && C(0) >= C(1) ) r = -100; )
CDL(INVERTEDHAMMER, NO, max( max( P(BodyShort), P(ShadowLong) ), P(ShadowVeryShort) ) + 1,
    if( BODY(0) < AVG(BodyShort,0) && US(0) > AVG(ShadowLong,0) && LS(0) < AVG(ShadowVeryShort,0) && GAPDN(0,1) ) r = 100; )
CDL(KICKING, NO, max( P(ShadowVeryShort), P(BodyLong) ) + 1,
    if( COL(1) == -COL(0) && BODY(1) > AVG(BodyLong,1) && US(1) < AVG(ShadowVeryShort,1) && LS(1) < AVG(ShadowVeryShort,1) && BODY(0) >
       AVG(BodyLong,0) && US(0) < AVG(ShadowVeryShort,0) && LS(0) < AVG(ShadowVeryShort,0) && ( ( COL(1) == -1 && CGAPUP(0,1) ) || ( COL(1) == 1 &&
       CGAPDN(0,1) ) ) ) r = 100 * COL(0); )
CDL(KICKINGBYLENGTH, NO, max( P(ShadowVeryShort), P(BodyLong) ) + 1,
    if( COL(1) == -COL(0) && BODY(1) > AVG(BodyLong,1) && US(1) < AVG(ShadowVeryShort,1) && LS(1) < AVG(ShadowVeryShort,1) && BODY(0) >
       AVG(BodyLong,0) && US(0) < AVG(ShadowVeryShort,0) && LS(0) < AVG(ShadowVeryShort,0) && ( ( COL(1) == -1 && CGAPUP(0,1) ) || ( COL(1) == 1 &&
       CGAPDN(0,1) ) ) ) r = (BODY(0) > BODY(1) ? COL(0) : COL(1)) * 100; )
CDL(LADDERBOTTOM, NO, P(ShadowVeryShort) + 4,
    if( COL(4) == -1 && COL(3) == -1 && COL(2) == -1 && O(4) > O(3) && O(3) > O(2) && C(4) > C(3) && C(3) > C(2) && COL(1) == -1 && US(1) >
       AVG(ShadowVeryShort,1) && COL(0) == 1 && O(0) > O(1) && C(0) > H(1) ) r = 100; )
CDL(LONGLEGGEDDOJI, NO, max( P(BodyDoji), P(ShadowLong) ),
    if( BODY(0) <= AVG(BodyDoji,0) && ( LS(0) > AVG(ShadowLong,0) || US(0) > AVG(ShadowLong,0) ) ) r = 100; )
CDL(LONGLINE, NO, max( P(BodyLong), P(ShadowShort) ),
    if( BODY(0) > AVG(BodyLong,0) && US(0) < AVG(ShadowShort,0) && LS(0) < AVG(ShadowShort,0) ) r = 100 * COL(0); )
CDL(MARUBOZU, NO, max( P(BodyLong), P(ShadowVeryShort) ),
    if( BODY(0) > AVG(BodyLong,0) && US(0) < AVG(ShadowVeryShort,0) && LS(0) < AVG(ShadowVeryShort,0) ) r = 100 * COL(0); )
CDL(MATCHINGLOW, NO, P(Equal) + 1,
    if( COL(1) == -1 && COL(0) == -1 && C(0) <= C(1) + AVG(Equal,1) && C(0) >= C(1) - AVG(Equal,1) ) r = 100; )
CDL(MATHOLD, PEN, max( P(BodyShort), P(BodyLong) ) + 4,
    if( BODY(4) > AVG(BodyLong,4) && BODY(3) < AVG(BodyShort,3) && BODY(2) < AVG(BodyShort,2) && BODY(1) < AVG(BodyShort,1) && COL(4) == 1 && COL(3)
       == -1 && COL(0) == 1 && GAPUP(3,4) && BOT(2) < C(4) && BOT(1) < C(4) && BOT(2) > C(4) - BODY(4) * penetration && BOT(1) > C(4) - BODY(4) *
       penetration && TOP(2) < O(3) && TOP(1) < TOP(2) && O(0) > C(1) && C(0) > max(max(H(3), H(2)), H(1)) ) r = 100; )
CDL(MORNINGDOJISTAR, PEN, max( max( P(BodyDoji), P(BodyLong) ), P(BodyShort) ) + 2,
    if( BODY(2) > AVG(BodyLong,2) && COL(2) == -1 && BODY(1) <= AVG(BodyDoji,1) && GAPDN(1,2) && BODY(0) > AVG(BodyShort,0) && COL(0) == 1 && C(0) >
       C(2) + BODY(2) * penetration ) r = 100; )
CDL(MORNINGSTAR, PEN, max( P(BodyShort), P(BodyLong) ) + 2,
    if( BODY(2) > AVG(BodyLong,2) && COL(2) == -1 && BODY(1) <= AVG(BodyShort,1) && GAPDN(1,2) && BODY(0) > AVG(BodyShort,0) && COL(0) == 1 && C(0) >
       C(2) + BODY(2) * penetration ) r = 100; )
CDL(ONNECK, NO, max( P(Equal), P(BodyLong) ) + 1,
    if( COL(1) == -1 && BODY(1) > AVG(BodyLong,1) && COL(0) == 1 && O(0) < L(1) && C(0) <= L(1) + AVG(Equal,1) && C(0) >= L(1) - AVG(Equal,1) ) r =
       -100; )
CDL(PIERCING, NO, P(BodyLong) + 1,
    if( COL(1) == -1 && BODY(1) > AVG(BodyLong,1) && COL(0) == 1 && BODY(0) > AVG(BodyLong,0) && O(0) < L(1) && C(0) < O(1) && C(0) > C(1) + BODY(1) *
       0.5 ) r = 100; )
CDL(RICKSHAWMAN, NO, max( max( P(BodyDoji), P(ShadowLong) ), P(Near) ),
    if( BODY(0) <= AVG(BodyDoji,0) && LS(0) > AVG(ShadowLong,0) && US(0) > AVG(ShadowLong,0) && ( BOT(0) <= L(0) + (H(0) - L(0)) / 2 + AVG(Near,0) &&
       TOP(0) >= L(0) + (H(0) - L(0)) / 2 - AVG(Near,0) ) ) r = 100; )
CDL(RISEFALL3METHODS, NO, max( P(BodyShort), P(BodyLong) ) + 4,
    if( BODY(4) > AVG(BodyLong,4) && BODY(3) < AVG(BodyShort,3) && BODY(2) < AVG(BodyShort,2) && BODY(1) < AVG(BodyShort,1) && BODY(0) >
       AVG(BodyLong,0) && COL(4) == -COL(3) && COL(3) == COL(2) && COL(2) == COL(1) && COL(1) == -COL(0) && BOT(3) < H(4) && TOP(3) > L(4) && BOT(2) <
       H(4) && TOP(2) > L(4) && BOT(1) < H(4) && TOP(1) > L(4) && C(2) * COL(4) < C(3) * COL(4) && C(1) * COL(4) < C(2) * COL(4) && O(0) * COL(4) >
       C(1) * COL(4) && C(0) * COL(4) > C(4) * COL(4) ) r = 100 * COL(4); )
CDL(SEPARATINGLINES, NO, max( max( P(ShadowVeryShort), P(BodyLong) ), P(Equal) ) + 1,
    if( COL(1) == -COL(0) && O(0) <= O(1) + AVG(Equal,1) && O(0) >= O(1) - AVG(Equal,1) && BODY(0) > AVG(BodyLong,0) && ( ( COL(0) == 1 && LS(0) <
       AVG(ShadowVeryShort,0) ) || ( COL(0) == -1 && US(0) < AVG(ShadowVeryShort,0) ) ) ) r = 100 * COL(0); )
CDL(SHOOTINGSTAR, NO, max( max( P(BodyShort), P(ShadowLong) ), P(ShadowVeryShort) ) + 1,
    if( BODY(0) < AVG(BodyShort,0) && US(0) > AVG(ShadowLong,0) && LS(0) < AVG(ShadowVeryShort,0) && GAPUP(0,1) ) r = -100; )
CDL(SHORTLINE, NO, max( P(BodyShort), P(ShadowShort) ),
    if( BODY(0) < AVG(BodyShort,0) && US(0) < AVG(ShadowShort,0) && LS(0) < AVG(ShadowShort,0) ) r = 100 * COL(0); )
CDL(SPINNINGTOP, NO, P(BodyShort),
    if( BODY(0) < AVG(BodyShort,0) && US(0) > BODY(0) && LS(0) > BODY(0) ) r = 100 * COL(0); )
CDL(STALLEDPATTERN, NO, max( max( P(BodyLong), P(BodyShort) ), max( P(ShadowVeryShort), P(Near) ) ) + 2,
    if( COL(2) == 1 && COL(1) == 1 && COL(0) == 1 && C(0) > C(1) && C(1) > C(2) && BODY(2) > AVG(BodyLong,2) && BODY(1) > AVG(BodyLong,1) && US(1) <
       AVG(ShadowVeryShort,1) && O(1) > O(2) && O(1) <= C(2) + AVG(Near,2) && BODY(0) < AVG(BodyShort,0) && O(0) >= C(1) - BODY(0) - AVG(Near,1) ) r =
       -100; )
CDL(STICKSANDWICH, NO, P(Equal) + 2,
    if( COL(2) == -1 && COL(1) == 1 && COL(0) == -1 && L(1) > C(2) && C(0) <= C(2) + AVG(Equal,2) && C(0) >= C(2) - AVG(Equal,2) ) r = 100; )
CDL(TAKURI, NO, max( max( P(BodyDoji), P(ShadowVeryShort) ), P(ShadowVeryLong) ),
    if( BODY(0) <= AVG(BodyDoji,0) && US(0) < AVG(ShadowVeryShort,0) && LS(0) > AVG(ShadowVeryLong,0) ) r = 100; )
CDL(TASUKIGAP, NO, P(Near) + 2,
    if( ( GAPUP(1,2) && COL(1) == 1 && COL(0) == -1 && O(0) < C(1) && O(0) > O(1) && C(0) < O(1) && C(0) > TOP(2) && fabs(BODY(1) - BODY(0)) <
       AVG(Near,1) ) || ( GAPDN(1,2) && COL(1) == -1 && COL(0) == 1 && O(0) < O(1) && O(0) > C(1) && C(0) > O(1) && C(0) < BOT(2) && fabs(BODY(1) -
       BODY(0)) < AVG(Near,1) ) ) r = 100 * COL(1); )
CDL(THRUSTING, NO, max( P(Equal), P(BodyLong) ) + 1,
    if( COL(1) == -1 && BODY(1) > AVG(BodyLong,1) && COL(0) == 1 && O(0) < L(1) && C(0) > C(1) + AVG(Equal,1) && C(0) <= C(1) + BODY(1) * 0.5 ) r =
       -100; )
CDL(TRISTAR, NO, P(BodyDoji) + 2,
    if( BODY(2) <= AVG(BodyDoji,2) && BODY(1) <= AVG(BodyDoji,2) && BODY(0) <= AVG(BodyDoji,2) ) { r = 0; if ( GAPUP(1,2) && TOP(0) < TOP(1) ) r =
       -100; if ( GAPDN(1,2) && BOT(0) > BOT(1) ) r = +100;  } )
CDL(UNIQUE3RIVER, NO, max( P(BodyShort), P(BodyLong) ) + 2,
    if( BODY(2) > AVG(BodyLong,2) && COL(2) == -1 && COL(1) == -1 && C(1) > C(2) && O(1) <= O(2) && L(1) < L(2) && BODY(0) < AVG(BodyShort,0) &&
       COL(0) == 1 && O(0) > L(1) ) r = 100; )
CDL(UPSIDEGAP2CROWS, NO, max( P(BodyShort), P(BodyLong) ) + 2,
    if( COL(2) == 1 && BODY(2) > AVG(BodyLong,2) && COL(1) == -1 && BODY(1) <= AVG(BodyShort,1) && GAPUP(1,2) && COL(0) == -1 && O(0) > O(1) && C(0) <
       C(1) && C(0) > C(2) ) r = -100; )
CDL(XSIDEGAP3METHODS, NO, 2,
    if( COL(2) == COL(1) && COL(1) == -COL(0) && O(0) < TOP(1) && O(0) > BOT(1) && C(0) < TOP(2) && C(0) > BOT(2) && ( ( COL(2) == 1 && GAPUP(1,2) )
       || ( COL(2) == -1 && GAPDN(1,2) ) ) ) r = 100 * COL(2); )

/* an inside bar, and a bar with both extremes lower (higher): 100 (-100); the confirmation, a close beyond the second
 * of the pattern's candles within three bars: 200 (-200) */
static void hikkake(int n, int mod, const double *o, const double *h, const double *l, const double *c, int *out)
{
    int lookback = mod ? max(1, P(Near)) + 5 : 5, seen = 0, at = 0, res = 0;
    for (int t = lookback - 3; t < n; t++) {
        struct cdl x = { o, h, l, c, t };
        int dn = H(0) < H(1) && L(0) < L(1), up = H(0) > H(1) && L(0) > L(1), r = 0;
        int inside = H(1) < H(2) && L(1) > L(2);
        if (mod) {                  /* two inside bars; the middle one closes near its low (high) */
            inside = inside && H(2) < H(3) && L(2) > L(3);
            dn = dn && C(2) <= L(2) + AVG(Near,2);
            up = up && C(2) >= H(2) - AVG(Near,2);
        }
        if (inside && (dn || up)) { r = res = H(0) < H(1) ? 100 : -100; at = t; seen = 1; }
        else if (seen && t <= at + 3 && ((res > 0 && c[t] > h[at-1]) || (res < 0 && c[t] < l[at-1]))) { r = 2 * res; seen = 0; }
        if (t >= lookback) out[t] = r;
    }
}
void REF_CDLHIKKAKE(int n, const double *o, const double *h, const double *l, const double *c, int *out) { hikkake(n, 0, o, h, l, c, out); }
void REF_CDLHIKKAKEMOD(int n, const double *o, const double *h, const double *l, const double *c, int *out) { hikkake(n, 1, o, h, l, c, out); }
