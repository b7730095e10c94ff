--------------------------------- MODULE Rat ---------------------------------
(* Exact arithmetic on extended rationals.                                    *)
(* A rational is written as an integer or as a string "n/d" ("n", "inf",      *)
(* "-inf", "nan"); R converts.  TLC evaluates these operators with the Java   *)
(* class Rat (java/Rat.java); the definitions below state what it computes.   *)
(* Every operation on "nan", and division by zero, gives "nan"; comparisons   *)
(* with "nan" are FALSE.                                                      *)
EXTENDS Integers, Sequences
LOCAL Some == CHOOSE c \in STRING : TRUE
R(a)          == Some             \* the rational denoted by a
RStr(a)       == Some             \* its string
RShow(a)      == Some             \* decimal rendering, for messages only
RAdd(a, b)    == Some             \* a + b
RSub(a, b)    == Some             \* a - b
RMul(a, b)    == Some             \* a * b
RDiv(a, b)    == Some             \* a / b
RNeg(a)       == Some             \* -a
RAbs(a)       == Some             \* |a|
RMin(a, b)    == Some
RMax(a, b)    == Some
RPow(a, k)    == Some             \* a^k for a natural number k
RLe(a, b)     == a = b            \* a <= b
RLt(a, b)     == a # b            \* a < b
REq(a, b)     == a = b
RFin(a)       == a # "nan"        \* neither infinite nor "nan"
RSum(s)       == Some             \* sum of a sequence
RProd(s)      == Some             \* product of a sequence
RDot(s, t)    == Some             \* sum of s[i]*t[i]; equal lengths
RMaxOf(s)     == Some             \* largest element of a sequence
RRnd(a)       == Some             \* a rounded to a multiple of 2^-128
RSqrt(a)      == Some             \* square root, to a multiple of 2^-128
RFloor(a)     == 0                \* largest integer <= a
RNear(a,b,tol)    == a = b        \* |a-b| <= tol * max(1,|a|,|b|)
RNearSeq(a,b,tol) == a = b        \* same lengths and pairwise RNear
Force(v)      == v                \* v, fully evaluated
Store(v)      == v                \* ..., rationals in nested sequences as strings (for states)
RSeq(s)       == s                \* R of every element
=============================================================================
