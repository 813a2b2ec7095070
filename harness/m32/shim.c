extern int __cxa_atexit(void(*)(void*),void*,void*);
int atexit(void(*f)(void)){ return __cxa_atexit((void(*)(void*))f,0,0); }
extern int __register_atfork(void(*)(void),void(*)(void),void(*)(void),void*);
int pthread_atfork(void(*a)(void),void(*b)(void),void(*c)(void)){ return __register_atfork(a,b,c,0); }
