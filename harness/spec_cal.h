/* Proleptic Gregorian calendar, written from its definition (independent of /repo). */
static int sp_fdiv(int a,int b) { return a >= 0 ? a / b : -((b - 1 - a) / b); }     /* floor(a/b) */
static int sp_leap(int y) { return y % 4 == 0 && (y % 100 != 0 || y % 400 == 0); }
static int sp_mdays(int m,int leap) { return m == 2 ? 28 + leap : (m == 4 || m == 6 || m == 9 || m == 11) ? 30 : 31; }
static int sp_before(int m,int leap)
{
    static const short before[2][13] = {{0,0,31,59,90,120,151,181,212,243,273,304,334},{0,0,31,60,91,121,152,182,213,244,274,305,335}};
    return before[leap][m];
}
static int sp_valid(int y,int m,int d) { return m >= 1 && m <= 12 && d >= 1 && d <= sp_mdays(m,sp_leap(y)); }
/* days from 1970-01-01 to y-01-01: 365 per year, plus the leap years between */
static int sp_jan1(int y) { return (y - 1970)*365 + sp_fdiv(y - 1969,4) - sp_fdiv(y - 1901,100) + sp_fdiv(y - 1601,400); }
static int sp_days(int y,int m,int d) { return sp_jan1(y) + sp_before(m,sp_leap(y)) + d - 1; }
