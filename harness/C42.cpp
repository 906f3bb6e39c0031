//@ flags -Dstrtk_use_lut -Dstrtk_enable_superscalar
//@ job gram args=0..5 thorough=6..7
//@ job gramd args=4..8 thorough=9..10
//@ job acc args=1..9,101..108,203,301..306,505,808,1000,1500,909,612 thorough=10,202,404,707,1111,215,1503
//@ job accf args=1..7,102,203,403,600
//@ job accexp args=0..20
//@ job accexpf args=0..7
//@ job extreme args=0..8
//@ job words args=0..3
//@ job zeros args=0..5
//@ bound every byte string of length 0..5 (thorough 7); strings of length 4..8 (thorough 10) over the characters of numbers; every choice of up to 15 digits split around the decimal point; exponents -300..300; up to 100 zeros before, between or after the digits; texts in exactly sized buffers
//@ assume the compile-time options are enabled together; accuracy is decided with exact real arithmetic and half an ulp of error per operation, as for C07
#include "C07.cpp"
