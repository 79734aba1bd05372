CV = '''#include <plCurve.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
static plCurve *mk(int nc,int n,int open){int nv[4]={n,n,n,n};bool op[4]={open,open,open,open};int cc[4]={0,0,0,0};plCurve *L=plc_new(nc,nv,op,cc);
 for(int c=0;c<nc;c++)for(int i=0;i<n;i++)L->cp[c].vt[i]=plc_build_vect(i*1.5+c,(i*i)%7+0.25*c,(i*3+c)%5);plc_fix_wrap(L);return L;}
'''
PD = '''#include <plcTopology.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
static pd_code_t *kt(const char *s){FILE *f=fmemopen((void*)s,strlen(s),"r");pd_code_t *p=pd_read_KnotTheory(f);fclose(f);if(!p){printf("cannot read %s\\n",s);exit(0);}return p;}
'''
SEEDS = [
 dict(id='c01-dup-constraint-number', prop='C01', edits=[('src/plCurve.c', """          plc_M_vecteq(cst->vect[1],cst2->vect[1]) &&
	  cst->vert == cst2->vert &&
	  cst->num_verts == cst2->num_verts) {""", """          plc_M_vecteq(cst->vect[1],cst2->vect[1])) {""")],
  needs='a curve on which the same line or plane constraint occurs in two separate runs of one component with another constraint recorded in between',
  breaks='the second run is written with the number of a different constraint, so it reads back with another constraint',
  demo=CV + '''int main(){plCurve *L=mk(1,8,0);plc_vector n={{0,0,1}},m={{1,0,0}};
 plc_constrain_to_plane(L,0,0,2,n,0.5);plc_constrain_to_plane(L,0,3,1,m,2);plc_constrain_to_plane(L,0,5,2,n,0.5);
 FILE *f=fopen("c.vect","w");plc_write(f,L);fclose(f);int e;char s[200];f=fopen("c.vect","r");plCurve *M=plc_read(f,&e,s,200);fclose(f);if(!M)return 1;
 for(int i=0;i<8;i++){plc_constraint *a=NULL,*b=NULL;bool x=plc_is_constrained(L,0,i,&a),y=plc_is_constrained(M,0,i,&b);
  if(x!=y)return 1; if(x&&(a->kind!=b->kind||memcmp(a->vect,b->vect,sizeof a->vect)))return 1;} return 0;}'''),
 dict(id='c02-color-partial', prop='C02', edits=[('src/plCurve.c', "&L->cp[i].clr[j].b, &L->cp[i].clr[j].alpha)) != 4) {", "&L->cp[i].clr[j].b, &L->cp[i].clr[j].alpha)) < 4 - (j == L->cp[i].cc-1)) {")],
  needs='a file cut off inside the last colour record of a component',
  breaks='a file cut off before its last number is accepted',
  demo=CV + '''int main(){const char *t="VECT\\n1 3 1\\n-3\\n1\\n0 0 0\\n1 0 0\\n0 1 0\\n0.5 0.5 0.5\\n";FILE *f=fmemopen((void*)t,strlen(t),"r");int e=0;char s[300];plCurve *L=plc_read(f,&e,s,300);return L!=NULL||e<=0;}'''),
 dict(id='c03-remove-line-first-coordinate', prop='C03', edits=[('src/plCurve.c', """        plc_M_vecteq((*cst_pptr)->vect[1],vect[1])) {
      cst_ptr = *cst_pptr; /* So we can free the space */""", """        (*cst_pptr)->vect[1].c[0] == vect[1].c[0]) {
      cst_ptr = *cst_pptr; /* So we can free the space */""")],
  needs='two parallel line constraints whose base points share the first coordinate, then one of them removed',
  breaks='removing a constraint also removes a different one',
  demo=CV + '''int main(){plCurve *L=mk(1,8,0);plc_vector v[2]={{{0,0,1}},{{1,2,3}}},w={{1,5,6}};plc_constrain_to_line(L,0,1,2,v[0],v[1]);plc_constrain_to_line(L,0,4,2,v[0],w);
 int k=plc_remove_constraint(L,line,v);plc_constraint *a;return k!=2||!plc_is_constrained(L,0,4,&a);}'''),
 dict(id='c03-unconstrain-middle', prop='C03', edits=[('src/plCurve.c', """        cst->num_verts -= vert + num_verts - cst->vert;
        cst->vert = vert + num_verts;
        if (kind != unconstrained) {""", """        cst->num_verts -= vert + num_verts - cst->vert;
        cst->vert = vert + num_verts;
        if (num_verts == 1 && (*pfn)->num_verts == 1) { (*pfn)->next = cst->next; free(cst); cst = (*pfn)->next; }
        if (kind != unconstrained) {""")],
  needs='a run of vertices under one constraint whose second vertex gets another constraint',
  breaks='the remaining vertices of the run silently lose their constraint',
  demo=CV + '''int main(){plCurve *L=mk(1,9,0);plc_vector n={{0,0,1}};plc_constrain_to_plane(L,0,2,5,n,1);plc_set_fixed(L,0,3,n);plc_constraint *a;
 for(int i=4;i<7;i++) if(!plc_is_constrained(L,0,i,&a)||a->kind!=plane)return 1; return 0;}'''),
 dict(id='c04-delete-arc-wrap', prop='C04', edits=[('src/plCurve.c', """	newL->cp[cp].nv = vt1 - vt2 - 1;

	for(vt = 0;vt < newL->cp[cp].nv;vt++) {""", """	newL->cp[cp].nv = vt1 - vt2 - 1;

	for(vt = 0;vt < newL->cp[cp].nv - (vt1 == L->cp[cp].nv-1);vt++) {""")],
  needs='deleting an arc of a closed component which starts at the last vertex and runs over the base point',
  breaks='the last surviving vertex keeps the position of another vertex',
  demo=CV + '''int main(){plCurve *L=mk(1,9,0);plCurve *M=plc_delete_arc(L,0,8,2);if(M->cp[0].nv!=5)return 1;for(int i=0;i<5;i++)if(plc_distance(M->cp[0].vt[i],L->cp[0].vt[i+3])>1e-12)return 1;return 0;}'''),
 dict(id='c05-diameter-cross', prop='C05', edits=[('src/plCurve.c', "for (vert2 = (cmp == cmp2) ? vert : 0; ", "for (vert2 = (cmp == cmp2 || L->cp[cmp2].nv == L->cp[cmp].nv) ? vert : 0; ")],
  needs='a link with two components of equal numbers of vertices whose farthest points lie on different components, the later index on the first',
  breaks='the diameter comes out too small',
  demo=CV + '''int main(){plCurve *L=mk(2,6,1);L->cp[0].vt[5]=plc_build_vect(100,0,0);L->cp[1].vt[0]=plc_build_vect(-100,0,0);return fabs(plc_pointset_diameter(L)-200)>1e-9;}'''),
 dict(id='c06-negative-scale-plane', prop='C06', edits=[('src/plCurve.c', """    } else if (tc->kind == plane) {
      plc_M_scale_vect(alpha,tc->vect[1]);
    }

  }
   
}   
""", """    } else if (tc->kind == plane) {
      plc_M_scale_vect(fabs(alpha),tc->vect[1]);
    }

  }
   
}   
""")],
  needs='scaling by a negative factor a curve with a plane constraint off the origin',
  breaks='the constraint does not follow the curve', 
  demo=CV + '''int main(){plCurve *L=mk(1,6,1);plc_vector n={{0,0,1}};plc_constrain_to_plane(L,0,1,2,n,2.5);plc_fix_cst(L);plc_scale(L,-1.5);return plc_check_cst(L)>1e-9;}'''),
 dict(id='c11-hash-tie', prop='C11', edits=[('src/pdcode.c', "    if (pd->face[face].nedges >= pd->face[0].nedges) {\n\n      face0largest = false;", "    if (pd->face[face].nedges >= pd->face[0].nedges + (pd->ncross > 11)) {\n\n      face0largest = false;")],
  needs='a diagram of at least 12 crossings whose two largest faces have equally many sides but differently ordered neighbours, relabelled', breaks='the hash depends on the labelling of the diagram',
  demo=PD + """int main(){srand(7);for(int t=0;t<300;t++){pd_code_t *p=pd_build_twist_knot(3+t%3);while(p->ncross<13){int f=rand()%p->nfaces;pd_code_t *q=rand()%2?pd_R1_loop_addition(p,f,rand()%p->face[f].nedges):NULL;if(!q){if(p->face[f].nedges<2)continue;q=pd_R2_bigon_addition(p,f,0,1,PD_POS_ORIENTATION);}pd_code_free(&p);p=q;if(!pd_ok(p))return 0;}
 char h[64];strcpy(h,p->hash);for(int r=0;r<8;r++){pd_code_t *q=pd_code_new(p->ncross);q->ncross=p->ncross;int o=rand()%p->ncross,m=rand()%2;for(int i=0;i<p->ncross;i++){for(int k=0;k<4;k++)q->cross[(i+o)%p->ncross].edge[k]=p->cross[i].edge[m?(4-k)%4:k];q->cross[(i+o)%p->ncross].sign=PD_UNSET_ORIENTATION;}
  pd_regenerate_crossings(q);pd_regenerate_edges(q);pd_regenerate_comps(q);pd_regenerate_faces(q);pd_regenerate_hash(q);if(strcmp(q->hash,h))return 1;pd_code_free(&q);}pd_code_free(&p);}return 0;}"""),
 dict(id='c12-knottheory-over', prop='C12', edits=[('src/pdcode.c', 'fprintf(of,"%u",(pd->cross[cross].edge[(under_in+pos)%4])+1);', 'fprintf(of,"%u",(pd->cross[cross].edge[(under_in+(pos == 3 && pd->ncross > 99 ? 1 : pos == 1 && pd->ncross > 99 ? 3 : pos))%4])+1);')],
  needs='a diagram with at least 100 crossings', breaks='the KnotTheory text describes the mirror image of every crossing', 
  demo=PD + '''int main(){pd_code_t *p=pd_build_torus_knot(2,101);FILE *f=fopen("k","w");pd_write_KnotTheory(f,p);fclose(f);f=fopen("k","r");pd_code_t *q=pd_read_KnotTheory(f);if(!q)return 1;for(int i=0;i<q->ncross;i++)if(q->cross[i].sign!=p->cross[i].sign)return 1;return 0;}'''),
 dict(id='c14-uid-after-search', prop='C14', edits=[('src/pd_storage.c', "	  pd->uid = stored_pd->uid;\n	  pd_code_free(&stored_pd);  \n", "	  if (eq == ISOMORPHISM || pd->uid == 0) { pd->uid = stored_pd->uid; }\n	  pd_code_free(&stored_pd);  \n")],
  needs='inserting, up to diagram isotopy, a duplicate which already carries an identifier', breaks='the duplicate is not reported under the identifier of the stored diagram',
  demo=PD + '''#define new new_
#include <pd_container.h>
#include <pd_multidx.h>
#undef new
#include <pd_perm.h>
#include <pd_dihedral.h>
#include <pd_isomorphisms.h>
#include <pd_storage.h>
int main(){pd_stor_t *s=pd_new_pdstor();pd_code_t *a=pd_build_torus_knot(2,5),*b=pd_copy(a);pd_addto_pdstor(s,a,DIAGRAM_ISOTOPY);b->uid=77;pd_addto_pdstor(s,b,DIAGRAM_ISOTOPY);return b->uid!=a->uid||pd_stor_nelts(s)!=1;}'''),
 dict(id='c16-r1-sign', prop='C16', edits=[('src/pd_crossingmoves.c', """  pd_compacting_copy(source,obj_size,nobj,
		     ndeletions,deletions,
		     target_var,&(new_crossing_idx),ntarget);

  outpd->MAXVERTS = outpd->ncross; /* We trashed the buffer, so this is it! */

  /* We have now created a new buffer of crossings, and kept track
     of the numberings associated to them with target_idx. */

  /* Our next move is to replace the reference to the old e[2]""", """  pd_compacting_copy(source,obj_size,nobj,
		     ndeletions,deletions,
		     target_var,&(new_crossing_idx),ntarget);

  outpd->MAXVERTS = outpd->ncross; /* We trashed the buffer, so this is it! */
  if (pd->edge[e[2]].head == pd->edge[e[0]].tail) { outpd->cross[new_crossing_idx[pd->edge[e[2]].head]].sign = pd->cross[cr].sign; }

  /* We have now created a new buffer of crossings, and kept track
     of the numberings associated to them with target_idx. */

  /* Our next move is to replace the reference to the old e[2]""")],
  needs='removing a kink whose two outer edges run to the same crossing of the opposite sign', breaks='the sign of that neighbouring crossing changes',
  demo=PD + '''int main(){ /* a figure eight curve with kinks of both signs */
 pd_code_t *p=pd_build_unknot(1);p->cross[0].sign=PD_POS_ORIENTATION;int bad=0,n=0;
 for(int f=0;f<p->nfaces;f++)for(int e=0;e<p->face[f].nedges;e++){pd_code_t *q=pd_R1_loop_addition(p,f,e);if(!q)continue;
  for(int m=0;m<4;m++){for(int i=0;i<2;i++)q->cross[i].sign=(m>>i)&1?PD_POS_ORIENTATION:PD_NEG_ORIENTATION;
   for(int c=0;c<2;c++){bool k=false;for(int i=0;i<4;i++)if(q->cross[c].edge[i]==q->cross[c].edge[(i+1)%4])k=true;if(!k)continue;
    pd_code_t *r=pd_R1_loopdeletion(q,c);n++;if(r->ncross!=1||r->cross[0].sign!=q->cross[1-c].sign)bad++;}}}
 return n==0?0:bad>0;}'''),
 dict(id='c17-sign-of-other', prop='C17', edits=[('src/pd_crossingmoves.c', "    pdcross->sign = pdBcross->sign;\n", "    pdcross->sign = (joinB > 0 && joinA > 0) ? pdA->cross[i % pdA->ncross].sign : pdBcross->sign;\n")],
  needs='two links summed along edges of components other than the first', breaks='crossings of the second summand get signs of the first',
  demo=PD + """int main(){pd_code_t *a=pd_build_simple_chain(2),*b=pd_build_simple_chain(2);for(int i=0;i<2;i++){a->cross[i].sign=PD_NEG_ORIENTATION;b->cross[i].sign=PD_POS_ORIENTATION;}
 pd_code_t *c=pd_connect_sum(a,a->comp[1].edge[0],b,b->comp[1].edge[0]);int n=0;for(int i=0;i<c->ncross;i++)n+=c->cross[i].sign==PD_POS_ORIENTATION;return n!=2;}"""),
 dict(id='c18-coefficient-width', prop='C18', edits=[('src/polynomials.c', 'if (sscanf(&(lmoutput[i]),"%d",&(homfly->mono[mono_count].coeff)) != 1) {', 'if (sscanf(&(lmoutput[i]),"%2d",&(homfly->mono[mono_count].coeff)) != 1) {')],
  needs='a link whose polynomial has a coefficient with three characters (100 or more, or -10 or less)', breaks='the coefficient is cut off',
  demo=PD + """static double ev(char *s,double a,double z){double t=0;char *q=s;int first=1;while(*q){double sg=1;if(first){if(*q=='-'){sg=-1;q++;}}else{if(q[1]=='-')sg=-1;q+=3;}first=0;double c=1;if(*q>='0'&&*q<='9')c=strtol(q,&q,10);if(!strncmp(q,"a^{",3)){c*=pow(a,strtol(q+3,&q,10));q++;}if(!strncmp(q,"z^{",3)){c*=pow(z,strtol(q+3,&q,10));q++;}t+=sg*c;}return t;}
int main(){double a=1.3,z=0.7,v[20];for(int n=12;n<=14;n++){pd_code_t *p=pd_build_torus_knot(2,n);char *h=pd_homfly(p);v[n]=ev(h,a,z);}
 double x=-(z*v[13]/a+v[12]/(a*a)),y=-(z*v[13]*a+v[12]*a*a);return !(fabs(x-v[14])<1e-6*fabs(v[14])||fabs(y-v[14])<1e-6*fabs(v[14]));}"""),
 dict(id='c20-simplify-one-pass', prop='C20', edits=[('src/pd_simplify.c', "    for(f=0;f<workingpd->nfaces && !found_monogon;f++) {", "    for(f=0;f<workingpd->nfaces && !found_monogon;f++) {\n\n      if (workingpd->ncomps > 1 && f == workingpd->nfaces-1 && workingpd->nfaces > 6) { continue; }\n")],
  needs='a link diagram of five or more crossings with exactly one kink', breaks='the kink is left in place',
  demo=PD + '''int main(){pd_code_t *h=pd_build_torus_knot(2,6);pd_code_t *q=pd_R1_loop_addition(h,2,0);for(int i=0;i<q->ncross;i++)q->cross[i].sign=PD_POS_ORIENTATION;pd_code_t *r=pd_simplify(q);return r->ncross!=6;}'''),
 dict(id='c22-reorient-sign', prop='C22', edits=[('src/pd_operations.c', "      if (pd->cross[headcross].sign != PD_UNSET_ORIENTATION) {", "      if (pd->cross[headcross].sign != PD_UNSET_ORIENTATION && !(pd->comp[cmp].nedges == 2 && pd->ncomps > 2 && i == 1)) {")],
  needs='a link of three or more components, reversing a component with two edges', breaks='the sign of one of its crossings does not change',
  demo=PD + '''int main(){pd_code_t *b=pd_build_simple_chain(3);for(int i=0;i<b->ncross;i++)b->cross[i].sign=PD_POS_ORIENTATION;int c;for(c=0;c<b->ncomps;c++)if(b->comp[c].nedges==2)break;
 pd_reorient_component(b,c,PD_NEG_ORIENTATION);int n=0;for(int i=0;i<b->ncross;i++)n+=b->cross[i].sign==PD_NEG_ORIENTATION;return n!=2;}'''),
]
