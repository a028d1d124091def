int sq_main(int, char **);
int main(int argc, char **argv) { return sq_main(argc, argv); }
