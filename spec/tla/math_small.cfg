INIT q_init
NEXT q_step
INVARIANT q_inv
VIEW View
CHECK_DEADLOCK FALSE
