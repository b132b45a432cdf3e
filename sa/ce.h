// question "is this a constant evaluation?" answered by a symbol the analysis binds to yes and to no
extern "C" bool verif_ce;
