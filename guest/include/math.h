double log(double); double log2(double); double sqrt(double); double fabs(double); double exp(double); double erfc(double); double pow(double, double); double floor(double); double ceil(double);
