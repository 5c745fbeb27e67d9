const char *sim_variant = SIM_VARIANT;
int sim_asan = SIM_ASAN;
