NOTE['default'] = ('Bounded: every path of the real functions within the stated sizes is explored symbolically over exact reals and each assertion is discharged by '
                   'z3 for all values in the stated ranges; floating-point rounding and larger sizes are outside. Trusted: the symbolic numpy stand-ins (cross-checked by replaying '
                   'a model of each path on real numpy), the lemmas about exp/log/tanh/atan/sqrt, z3.')
