// links: ALL
// libs: -lboost_program_options
int main(){}
