/* CBMC-side preamble, before the extracted bodies */
#ifndef CPRE_H
#define CPRE_H
/* assert() of the code under test: reaching a failed assert aborts the program */
void __assert_fail(const char *expr,const char *file,unsigned line,const char *func) { __CPROVER_assert(0,"CHECK code_assert"); __CPROVER_assume(0); }
/* ghost state used by loop invariants (see the contracts in props/) */
unsigned long vh_gk,vh_gpos,vh_gtotal,vh_glen; unsigned char vh_gseen,vh_gv; const char *vh_gd;
#endif
