/* Reference model of the Judy arrays the store uses (sorted linked lists); same contracts as Judy.h. */
#include "Judy.h"
#include <stdlib.h>
#include <string.h>
typedef struct jn { struct jn *next; Word_t val; Word_t idx; char *key; } jn;
typedef struct { jn *head; } ja;
PPvoid_t JudyLIns(PPvoid_t P,Word_t I,PJError_t e){ if(!*P) *P=calloc(1,sizeof(ja)); jn **q=&((ja*)*P)->head; while(*q&&(*q)->idx<I) q=&(*q)->next; if(*q&&(*q)->idx==I) return (PPvoid_t)&(*q)->val; jn *n=calloc(1,sizeof *n); n->idx=I; n->next=*q; *q=n; return (PPvoid_t)&n->val; }
PPvoid_t JudyLGet(Pcvoid_t P,Word_t I,PJError_t e){ jn *n=P?((ja*)P)->head:0; for(;n;n=n->next) if(n->idx==I) return (PPvoid_t)&n->val; return 0; }
PPvoid_t JudyLFirst(Pcvoid_t P,Word_t *I,PJError_t e){ jn *n=P?((ja*)P)->head:0; for(;n;n=n->next) if(n->idx>=*I){ *I=n->idx; return (PPvoid_t)&n->val; } return 0; }
PPvoid_t JudyLNext(Pcvoid_t P,Word_t *I,PJError_t e){ jn *n=P?((ja*)P)->head:0; for(;n;n=n->next) if(n->idx>*I){ *I=n->idx; return (PPvoid_t)&n->val; } return 0; }
Word_t JudyLCount(Pcvoid_t P,Word_t a,Word_t b,PJError_t e){ Word_t c=0; jn *n=P?((ja*)P)->head:0; for(;n;n=n->next) if(n->idx>=a&&n->idx<=b) c++; return c; }
Word_t JudyLFreeArray(PPvoid_t P,PJError_t e){ Word_t c=0; if(!*P) return 0; jn *n=((ja*)*P)->head; while(n){ jn *m=n->next; free(n); n=m; c+=16; } free(*P); *P=0; return c+8; }
PPvoid_t JudySLIns(PPvoid_t P,const uint8_t *I,PJError_t e){ if(!*P) *P=calloc(1,sizeof(ja)); jn **q=&((ja*)*P)->head; while(*q&&strcmp((*q)->key,(const char*)I)<0) q=&(*q)->next; if(*q&&!strcmp((*q)->key,(const char*)I)) return (PPvoid_t)&(*q)->val; jn *n=calloc(1,sizeof *n); n->key=malloc(strlen((const char*)I)+1); strcpy(n->key,(const char*)I); n->next=*q; *q=n; return (PPvoid_t)&n->val; }
PPvoid_t JudySLGet(Pcvoid_t P,const uint8_t *I,PJError_t e){ jn *n=P?((ja*)P)->head:0; for(;n;n=n->next) if(!strcmp(n->key,(const char*)I)) return (PPvoid_t)&n->val; return 0; }
PPvoid_t JudySLFirst(Pcvoid_t P,uint8_t *I,PJError_t e){ jn *n=P?((ja*)P)->head:0; for(;n;n=n->next) if(strcmp(n->key,(const char*)I)>=0){ strcpy((char*)I,n->key); return (PPvoid_t)&n->val; } return 0; }
PPvoid_t JudySLNext(Pcvoid_t P,uint8_t *I,PJError_t e){ jn *n=P?((ja*)P)->head:0; for(;n;n=n->next) if(strcmp(n->key,(const char*)I)>0){ strcpy((char*)I,n->key); return (PPvoid_t)&n->val; } return 0; }
Word_t JudySLFreeArray(PPvoid_t P,PJError_t e){ Word_t c=0; if(!*P) return 0; jn *n=((ja*)*P)->head; while(n){ jn *m=n->next; free(n->key); free(n); n=m; c+=16; } free(*P); *P=0; return c+8; }
