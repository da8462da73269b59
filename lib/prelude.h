extern char hexa[17]; /* completes the type of dcl.h's hexa[] in every file: CBMC needs one type per object */
