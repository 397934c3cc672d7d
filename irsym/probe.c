/* reads the current candle settings through the library's own accessor macros */
#include "ta_common.h"
#include "ta_global.h"
#include "ta_func.h"
#include "ta_utility.h"
#define P(NAME) case TA_##NAME: *range = (int)TA_CANDLERANGETYPE(NAME); *avg = (int)TA_CANDLEAVGPERIOD(NAME); *factor = TA_CANDLEFACTOR(NAME); return 0;
int irsym_candle(int id, int *range, int *avg, double *factor)
{
   switch( id ) {
   P(BodyLong) P(BodyVeryLong) P(BodyShort) P(BodyDoji) P(ShadowLong) P(ShadowVeryLong)
   P(ShadowShort) P(ShadowVeryShort) P(Near) P(Far) P(Equal)
   }
   return 1;
}
