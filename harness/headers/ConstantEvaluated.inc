inline int use_ConstantEvaluated() { return 0; }
