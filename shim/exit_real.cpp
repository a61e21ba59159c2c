#undef exit
void verif_exit(int code) { ::exit(code); }
