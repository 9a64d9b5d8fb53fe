// Harness side of the symbolic executor (or, natively, of the replay run time).
#pragma once
extern "C"
{
    unsigned char *vs_input(unsigned long n);      // n fresh symbolic bytes in an object of exactly n bytes
    unsigned char vs_byte();                       // one fresh symbolic byte
    void vs_assume(int condition);
    void vs_check(int condition, const char *message);
    void vs_cover(const char *label);              // vacuity witness: this point is reached
    unsigned long vs_concrete(unsigned long value);// one path per feasible value
}
