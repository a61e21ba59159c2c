void verif_exit(int code) { throw VerifExit{code}; }
