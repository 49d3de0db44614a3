#define W __attribute__((weak))
// C library functions that a change of the code may start to use (C locale)
#define ERANGE 34
#define ULLONG_MAX (~0ull)
#define LLONG_MAX 0x7fffffffffffffffll
#define LLONG_MIN (-LLONG_MAX-1)
typedef unsigned long size_t;
extern "C" {
W char*strcpy(char*d,const char*s) { char*r=d; while((*d++=*s++)); return r; }
W char*strncpy(char*d,const char*s,size_t n) { size_t i=0; for(;i<n&&s[i];++i) d[i]=s[i]; for(;i<n;++i) d[i]=0; return d; }
W char*strcat(char*d,const char*s) { char*r=d; while(*d) ++d; while((*d++=*s++)); return r; }
W size_t strnlen(const char*s,size_t n) { size_t i=0; while(i<n&&s[i]) ++i; return i; }
W size_t strspn(const char*s,const char*a) { size_t i=0; for(;s[i];++i){ const char*p=a; while(*p&&*p!=s[i]) ++p; if(!*p) break; } return i; }
W size_t strcspn(const char*s,const char*a) { size_t i=0; for(;s[i];++i){ const char*p=a; while(*p&&*p!=s[i]) ++p; if(*p) break; } return i; }
W int isdigit(int c) { return c>='0'&&c<='9'; }
W int isspace(int c) { return c==' '||(c>=9&&c<=13); }
W int isalpha(int c) { return (c>='a'&&c<='z')||(c>='A'&&c<='Z'); }
W int isupper(int c) { return c>='A'&&c<='Z'; }
W int islower(int c) { return c>='a'&&c<='z'; }
W int isalnum(int c) { return (c>='0'&&c<='9')||(c>='a'&&c<='z')||(c>='A'&&c<='Z'); }
W int tolower(int c) { return c>='A'&&c<='Z'?c+32:c; }
W int toupper(int c) { return c>='a'&&c<='z'?c-32:c; }
W int strcasecmp(const char*a,const char*b) { for(;;++a,++b){ int x=tolower((unsigned char)*a), y=tolower((unsigned char)*b); if(x!=y||!x) return x-y; } }
W int strncasecmp(const char*a,const char*b,size_t n) { for(;n;--n,++a,++b){ int x=tolower((unsigned char)*a), y=tolower((unsigned char)*b); if(x!=y||!x) return x-y; } return 0; }
static int rk_errno; W int*__errno_location() { return &rk_errno; }
W unsigned long long strtoull(const char*s,char**e,int base) {
	const char*p=s; while(isspace((unsigned char)*p)) ++p; bool neg=false; if(*p=='-'||*p=='+') neg=*p++=='-';
	if((base==0||base==16)&&p[0]=='0'&&(p[1]=='x'||p[1]=='X')){ p+=2; base=16; } if(base==0) base=*p=='0'?8:10;
	unsigned long long v=0; bool any=false, over=false; for(;;++p){ int c=(unsigned char)*p, d; if(isdigit(c)) d=c-'0'; else if(isalpha(c)) d=tolower(c)-'a'+10; else break; if(d>=base) break; any=true; if(v>(ULLONG_MAX-d)/base) over=true; v=v*base+d; }
	if(e) *e=(char*)(any?p:s); if(over){ rk_errno=ERANGE; return ULLONG_MAX; } return neg?-v:v; }
W unsigned long strtoul(const char*s,char**e,int base) { return strtoull(s,e,base); }
W long long strtoll(const char*s,char**e,int base) {
	const char*p=s; while(isspace((unsigned char)*p)) ++p; bool neg=*p=='-'; int old=rk_errno; rk_errno=0; unsigned long long v=strtoull(s,e,base); bool over=rk_errno==ERANGE; rk_errno=old;
	unsigned long long m=neg?-v:v; if(over) m=ULLONG_MAX; if(over||m>(unsigned long long)LLONG_MAX+neg){ rk_errno=ERANGE; return neg?LLONG_MIN:LLONG_MAX; } return (long long)v; }
W long strtol(const char*s,char**e,int base) { return strtoll(s,e,base); }
W int atoi(const char*s) { return (int)strtoll(s,nullptr,10); }
W long atol(const char*s) { return strtoll(s,nullptr,10); }
W int abs(int x) { return x<0?-x:x; }
}
extern "C" const char*rk_strchr(const char*s,int c) __asm__("strchr"); extern "C" W const char*rk_strchr(const char*s,int c){ for(;;++s){ if(*s==(char)c) return s; if(!*s) return nullptr; } }
extern "C" const char*rk_strrchr(const char*s,int c) __asm__("strrchr"); extern "C" W const char*rk_strrchr(const char*s,int c){ const char*r=nullptr; for(;;++s){ if(*s==(char)c) r=s; if(!*s) return r; } }
extern "C" const char*rk_strstr(const char*s,const char*t) __asm__("strstr"); extern "C" W const char*rk_strstr(const char*s,const char*t){ for(;;++s){ const char*a=s,*b=t; while(*b&&*a==*b){ ++a; ++b; } if(!*b) return s; if(!*s) return nullptr; } }
extern "C" const char*rk_strpbrk(const char*s,const char*t) __asm__("strpbrk"); extern "C" W const char*rk_strpbrk(const char*s,const char*t){ for(;*s;++s) for(const char*b=t;*b;++b) if(*b==*s) return s; return nullptr; }

extern "C" {
W unsigned long long __isoc23_strtoull(const char*s,char**e,int b){ return strtoull(s,e,b); }
W unsigned long __isoc23_strtoul(const char*s,char**e,int b){ return strtoull(s,e,b); }
W long long __isoc23_strtoll(const char*s,char**e,int b){ return strtoll(s,e,b); }
W long __isoc23_strtol(const char*s,char**e,int b){ return strtoll(s,e,b); }
}
