/* P11: queries about strands, edges, components, faces */
//BOUND every connected planar map with <=3 crossings and 22 shadows up to 12 crossings; signs symbolic {neg,pos}; every component orientation; every crossing and edge
//JOB p11_small n=1..3
//JOB p11_shape shape=0..21
//JOB p11_small n=4 tier=thorough
//JOB p11_alt n=1..3
//JOB p11_altshape shape=0..17,19,21
//JOB p11_altfar n=10..16
#include "diag.h"
static rmap M,A;
static int over_in(const rmap *m,int c,int sg){ int p; for(p=0;p<4;p++) if(m->in[4*c+p]&&m->in[4*c+((p+1)&3)]) break; return sg==1?p:(p+1)&3; } /* strand p crosses over: the other enters at p+1 */
static void body(void){ int i,d; sym_signs(&M,0,1); pd_code_t *pd=mk_pd(&M,sym_choice("var",0,2),M.n); rm_from_pd(&A,pd);
  int what=sym_choice("what",0,1);
  if(what==0){ int c=sym_choice("cross",0,M.n-1); int o=over_in(&A,c,pd->cross[c].sign),u=over_in(&A,c,1-pd->cross[c].sign); pd_idx_t a=99,b=99;
    pd_overstrand_pos(pd,c,&a,&b); CHECK(a==(unsigned)o&&b==(unsigned)((o+2)&3),"positions of the strand going over"); pd_understrand_pos(pd,c,&a,&b); CHECK(a==(unsigned)u&&b==(unsigned)((u+2)&3),"positions of the strand going under");
    pd_overstrand(pd,c,&a,&b); CHECK(a==pd->cross[c].edge[o]&&b==pd->cross[c].edge[(o+2)&3],"edges of the strand going over"); pd_understrand(pd,c,&a,&b); CHECK(a==pd->cross[c].edge[u]&&b==pd->cross[c].edge[(u+2)&3],"edges of the strand going under"); }
  else { int e=sym_choice("edge",0,2*M.n-1); pd_edge_t E=pd->edge[e]; pd_idx_t c=99,p=99,pf=99,pp=99,nf=99,np=99,k; int h=4*E.head+E.headpos,t=4*E.tail+E.tailpos;
    CHECK(pd_next_edge(pd,e)==(unsigned)A.eno[rm_opp(h)],"next edge"); CHECK(pd_previous_edge(pd,e)==(unsigned)A.eno[rm_opp(t)],"previous edge");
    pd_component_and_pos(pd,e,&c,&p); CHECK(c<pd->ncomps&&p<pd->comp[c].nedges&&pd->comp[c].edge[p]==(unsigned)e,"component and position");
    pd_face_and_pos(pd,e,&pf,&pp,&nf,&np); CHECK(pf<pd->nfaces&&nf<pd->nfaces&&pp<pd->face[pf].nedges&&np<pd->face[nf].nedges,"faces in range"); CHECK(pd->face[pf].edge[pp]==(unsigned)e&&pd->face[pf].orient[pp]==PD_POS_ORIENTATION,"positive face"); CHECK(pd->face[nf].edge[np]==(unsigned)e&&pd->face[nf].orient[np]==PD_NEG_ORIENTATION,"negative face");
    for(k=0;k<pd->nfaces;k++) CHECK(pd_edge_on_face(pd,e,k)==(k==pf||k==nf),"edge on face");
    pd_edge_t F=pd_oriented_edge(E,PD_POS_ORIENTATION),G=pd_oriented_edge(E,PD_NEG_ORIENTATION); CHECK(F.head==E.head&&F.tail==E.tail&&F.headpos==E.headpos&&F.tailpos==E.tailpos,"edge as is"); CHECK(G.head==E.tail&&G.tail==E.head&&G.headpos==E.tailpos&&G.tailpos==E.headpos,"edge reversed");
    pd_reorient_edge(pd,e,PD_POS_ORIENTATION); CHECK(memcmp(&pd->edge[e],&E,sizeof E)==0,"edge kept"); pd_reorient_edge(pd,e,PD_NEG_ORIENTATION); G=pd->edge[e]; CHECK(G.head==E.tail&&G.tail==E.head&&G.headpos==E.tailpos&&G.tailpos==E.headpos,"edge flipped"); }
  pd_code_free(&pd); sym_reach("end"); }
static void alt(void){ pd_code_t *pd=mk_pd(&M,0,M.n); int e,al=1; rm_from_pd(&A,pd); for(e=0;e<2*M.n;e++){ pd_edge_t E=pd->edge[e]; int ho=over_in(&A,E.head,pd->cross[E.head].sign)==(int)E.headpos,to=((over_in(&A,E.tail,pd->cross[E.tail].sign)+2)&3)==(int)E.tailpos; al&=(ho!=to); } CHECK(pd_is_alternating(pd)==al,"alternating"); pd_code_free(&pd); sym_reach("end"); }
void p11_small(void){ rm_any(&M,sym_arg("n",2)); rm_orient(&M,sym_choice("flip",0,3)); body(); }
void p11_shape(void){ rm_shape(&M,sym_arg("shape",2)); rm_orient(&M,sym_choice("flip",0,3)); body(); }
void p11_alt(void){ rm_any(&M,sym_arg("n",2)); rm_orient(&M,sym_choice("flip",0,3)); sym_signs(&M,0,1); alt(); }
void p11_altshape(void){ rm_shape(&M,sym_arg("shape",2)); rm_orient(&M,sym_choice("flip",0,1)); sym_signs(&M,0,1); alt(); }
/* alternating except for one symbolic crossing change */
void p11_altfar(void){ int n=sym_arg("n",10),i; rm_torus2(&M,n); rm_orient(&M,0); for(i=0;i<n;i++) M.sign[i]=1; int c=sym_choice("c",0,n-1); M.sign[c]=sym_range("sign",0,1); alt(); }
