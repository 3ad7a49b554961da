# include path and library of product $L, from the generated build description
L=${L:-generic64}
INC=$(grep -A3 "^build _build/obj/x86_64/$L/.*/lib_high_Kravatte_KravatteModes.c" _build/build.ninja | grep -m1 flags | grep -o ' -I[^ ]*' | tr '\n' ' ')
LIB=_build/bin/$L/libXKCP.a
