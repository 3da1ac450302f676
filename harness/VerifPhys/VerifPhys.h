/* VerifPhys.h */
