#ifndef FAULTS_H
#define FAULTS_H
void flt_install(void);
void flt_arm(const char *item, const char *call, int nth, const char *mode);
const char *flt_disarm(int *hit);
#endif
