// One-off extraction of the constant tables of the AV1 specification from the base dav1d tree.
#include "config.h"
#include <stdio.h>
#include <string.h>
#include "src/internal.h"
#include "src/cdf.h"
#include "src/tables.h"
#include "src/qm.h"
#include "src/scan.h"
#include "src/dequant_tables.h"
static void u16(const char*n,const uint16_t*p,size_t c){printf("static const uint16_t %s[%zu]={",n,c);for(size_t i=0;i<c;i++)printf("%u,%s",p[i],i%24==23?"\n":"");printf("};\n");}
static void i16(const char*n,const int16_t*p,size_t c){printf("static const int16_t %s[%zu]={",n,c);for(size_t i=0;i<c;i++)printf("%d,%s",p[i],i%24==23?"\n":"");printf("};\n");}
static void i8(const char*n,const int8_t*p,size_t c){printf("static const int8_t %s[%zu]={",n,c);for(size_t i=0;i<c;i++)printf("%d,%s",p[i],i%32==31?"\n":"");printf("};\n");}
static void u8(const char*n,const uint8_t*p,size_t c){printf("static const uint8_t %s[%zu]={",n,c);for(size_t i=0;i<c;i++)printf("%u,%s",p[i],i%32==31?"\n":"");printf("};\n");}
static CdfContext c[4];
#define M(f) u16("D_m_" #f,(const uint16_t*)&c[0].m.f,sizeof(c[0].m.f)/2);
#define C(f) for(int q=0;q<4;q++){char nm[64];sprintf(nm,"D_coef%d_" #f,q);u16(nm,(const uint16_t*)&c[q].coef.f,sizeof(c[q].coef.f)/2);}
#define V(f) u16("D_mv_" #f,(const uint16_t*)&c[0].mv.comp[0].f,sizeof(c[0].mv.comp[0].f)/2); if(memcmp(&c[0].mv.comp[0].f,&c[0].mv.comp[1].f,sizeof(c[0].mv.comp[0].f)))fprintf(stderr,"mv comp differ\n");
int main(){
 static const int q[4]={10,50,100,200};
 for(int i=0;i<4;i++){CdfThreadContext t;memset(&t,0,sizeof t);dav1d_cdf_thread_init_static(&t,q[i]);dav1d_cdf_thread_copy(&c[i],&t);}
 puts("// generated by tools/dump_tables.c");
M(uv_mode)M(partition)M(cfl_alpha)M(txtp_inter1)M(txtp_inter2)M(txtp_intra1)M(txtp_intra2)M(cfl_sign)M(angle_delta)M(filter_intra)M(seg_id)M(pal_sz)M(color_map)M(txsz)M(delta_q)M(delta_lf)M(restore_switchable)M(restore_wiener)M(restore_sgrproj)M(txtp_inter3)M(use_filter_intra)M(txpart)M(skip)M(pal_y)M(pal_uv)M(intrabc)M(y_mode)M(wedge_idx)M(comp_inter_mode)M(filter)M(interintra_mode)M(motion_mode)M(skip_mode)M(newmv_mode)M(globalmv_mode)M(refmv_mode)M(drl_bit)M(intra)M(comp)M(comp_dir)M(jnt_comp)M(mask_comp)M(wedge_comp)M(ref)M(comp_fwd_ref)M(comp_bwd_ref)M(comp_uni_ref)M(seg_pred)M(interintra)M(interintra_wedge)M(obmc)
C(eob_bin_16)C(eob_bin_32)C(eob_bin_64)C(eob_bin_128)C(eob_bin_256)C(eob_bin_512)C(eob_bin_1024)C(eob_base_tok)C(base_tok)C(br_tok)C(eob_hi_bit)C(skip)C(dc_sign)
V(classes)V(sign)V(class0)V(class0_fp)V(class0_hp)V(classN)V(classN_fp)V(classN_hp)
 u16("D_mv_joint",c[0].mv.joint,sizeof(c[0].mv.joint)/2);
 u16("D_kfym",(uint16_t*)c[0].kfym,sizeof(c[0].kfym)/2);
 u16("T_dq",(const uint16_t*)dav1d_dq_tbl,3*256*2);
 dav1d_init_qm_tables();
 static const int tw[19]={4,8,16,32,32,4,8,8,16,16,32,32,32,4,16,8,32,16,32},th[19]={4,8,16,32,32,8,4,16,8,32,16,32,32,16,4,32,8,32,16};
 for(int t=0;t<19;t++){ if(t==4||t==11||t==12||t==17||t==18)continue; static uint8_t b[15*2*1024]; int n=tw[t]*th[t]; for(int i=0;i<15;i++)for(int j=0;j<2;j++)memcpy(b+(i*2+j)*n,dav1d_qm_tbl[i][j][t],n); char nm[32];sprintf(nm,"T_qm%d",t);u8(nm,b,15*2*n);}
 for(int t=0;t<19;t++){ if(t==4||t==11||t==12||t==17||t==18)continue; char nm[32];sprintf(nm,"T_scan%d",t);u16(nm,dav1d_scans[t],tw[t]*th[t]);}
 i8("T_subpel",(int8_t*)dav1d_mc_subpel_filters,6*15*8);
 i8("T_warp",(int8_t*)dav1d_mc_warp_filter,193*8);
 i8("T_resize",(int8_t*)dav1d_resize_filter,64*8);
 u8("T_smw",dav1d_sm_weights,128);
 u16("T_drd",dav1d_dr_intra_derivative,44);
 i8("T_fi",(int8_t*)dav1d_filter_intra_taps,5*64);
 u8("T_obmc",dav1d_obmc_masks,64);
 i16("T_gauss",dav1d_gaussian_sequence,2048);
 u16("T_sgr",(uint16_t*)dav1d_sgr_params,32);
 i8("T_cdefdir",(int8_t*)dav1d_cdef_directions,24);
 u8("T_imctx",dav1d_intra_mode_context,13);
 u8("T_skipctx",(uint8_t*)dav1d_skip_ctx,25);
 u8("T_loctx",(uint8_t*)dav1d_lo_ctx_offsets,75);
 u8("T_wedgectx",dav1d_wedge_ctx_lut,22);
}
