/* runs only the conversion of ta_func_api.xml into ta_func_api.c, with the
 * project's own generator */
#define main gen_code_main
#include "gen_code.c"
#undef main

int main( void )
{
   return generateFuncAPI_C() == 1 ? 0 : 1;
}
