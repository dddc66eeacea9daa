"""Which harness functions decide which property."""
class Sym:
    def __init__(self, file, funcs, tier='quick', **opts):
        self.file = file; self.funcs = funcs.split() if isinstance(funcs, str) else funcs; self.tier = tier; self.opts = opts

class Cbmc:
    def __init__(self, file, func, srcs, unwind, bound, tier='quick', defs=(), args=(), timeout=300, checks=True, allow=()):
        self.file = file; self.func = func; self.srcs = srcs.split() if isinstance(srcs, str) else srcs; self.unwind = unwind; self.bound = bound
        self.tier = tier; self.defs = list(defs); self.args = args; self.timeout = timeout; self.checks = checks; self.allow = set(allow)

TASKS = {}
_K = lambda n: ' '.join('h_%s_%s' % (a, n) for a in 'jump top bot pair0 pair1 pair2 pair3 pair4 pair5'.split())
FL = dict(tol=2e-5, vtol=2e-4)      # flows through single-precision files
TASKS['P01'] = [
    Sym('rt_dyn.c', 'h_ss h_ll h_ls h_sl h_ss_delay h_ll_delay h_ls_delay h_sl_delay h_top_solid h_top_liquid h_bot_solid h_bot_liquid'),
]
TASKS['P02'] = [Sym('kernel.c', ' '.join(_K(n) for n in 'dyn lss sls ssl lls'.split()) + ' h_surf_dyn h_surf_lss', weight=2)]
TASKS['P03'] = [Sym('kernel.c', _K('st') + ' h_surf_st')]
TASKS['P04'] = [Sym('radiation.c', 'h_ex h_sf h_mt h_dc h_ts')]
TASKS['P05'] = [Sym('radiation.c', 'h_rotvec h_rotten h_cart2cyl h_cyl2cart h_cyl2cart0 h_cart2cyl0')]
TASKS['P06'] = [Sym('syn.c', ' '.join('h_%s%s' % (k, s) for k in 'ex sf dc ts mt'.split() for s in ('', '_e', '_N', '_eN', '_e0', '_eN0'))
                    + ' h_conv h_convlong h_int h_dif h_int2 h_dif2 h_select h_reject h_zero_mt h_zero_sf', **FL)]
TASKS['P07'] = [Sym('tensors.c', 'h_strain_zne h_strain_zrt h_strain_zrt0 h_rotation_zne h_rotation_zrt h_rotation_zrt0 h_stress_zne h_stress_zrt h_stress_zrt0 h_stressQ_zne h_stressQ_zrt h_stressQ3_zne h_stressQ3_zrt', **FL)]
TASKS['P08'] = [Sym('tensors.c', 'h_ststrain_zne h_ststrain_zrt h_strotation_zne h_strotation_zrt h_ststress_zne h_ststress_zrt h_ststrain_r0 h_strotation_r0 h_ststress_r0')]
TASKS['P09'] = [Sym('model.c', 'h_read h_read_noq h_read_dep h_read_liq h_plain h_lookup h_refuse h_fluidedge h_fluidcoincide h_boundary h_vrange h_state_el h_state_q h_state_ins')]
TASKS['P10'] = [Sym('signals.c', 'h_parabola h_exact h_trap h_ricker h_params h_timefun h_custom h_conv h_calculus', **FL)]
TASKS['P11'] = [Sym('stsyn.c', ' '.join('h_%s%s'%(k,t) for k in 'ex sf dc ts mt'.split() for t in ('','_e','_eN','_N0','_at0'))+' h_dist h_depth h_grid h_libgrid h_roundtrip h_refuse')]
TASKS['P12'] = [Sym('ff.c', 'h_load h_bad h_tile h_ff_two h_default h_ffrefuse '+' '.join('h_ff%d00%s'%(k,t) for k in range(1,6) for t in ('','_e'))),
    Cbmc('ffround.c','h_blocks','common/finite_fault.c',4,'every double depth extent and block size with at most 3 blocks, vertical fault striking along an axis')]
TASKS['P13'] = [Sym('okmain.c',' '.join('h_o%s%s'%(k,t) for k in 'ex dc ts'.split() for t in ('','_e','_eN','_N'))+' h_ogrid h_opoints h_oc_two h_orefuse '+' '.join('h_oc%d00%s'%(k,t) for k in range(1,6) for t in ('','_e','_v'))),
    Sym('okada.c', ' '.join('h_pt%d%s'%(k,t) for k in range(4) for t in ('','_v','_h'))+' h_ptsum h_ptedge h_rcempty h_rcsum h_rcedge '+' '.join('h_%s%d_%s'%(a,k,t) for a in ('rc','rv','rh') for k in range(3) for t in 'ul ur ll lr'.split()))]
TASKS['P14'] = [Sym('integ.c','h_integrand h_dwm h_dwm_e h_dwm_same h_keps0 h_keps1 h_keps2 h_keps3 h_fim h_fim_e h_safim h_safim_half h_safim_q1 h_safim_q3 h_dcm h_dcm_fim h_dcm_r0 h_ptam h_ptam_e h_ptam_turn h_ptam_turn_c h_kmax h_kmax_same h_kmax_none h_kmax_far h_kmax_bump')]
TASKS['P16'] = [Sym('travt.c','h_tt1 h_tt2 h_tt3 h_tt4 h_tt5 h_td1 h_td2 h_td3 h_td4 h_td5 h_ti1 h_ti2 h_ti3 h_ti4 h_file h_tz')]
TASKS['P15'] = [Sym('drvd.c','h_auto h_auto_dk h_upar h_dcm h_ref h_ref_coarse h_all h_low'), Sym('drvs.c','h_auto h_upar h_dist h_dcm h_ref h_ref_coarse'), Sym('drvg.c','h_plain h_delay h_alias_t h_alias_v h_alias_d h_alias_r h_alias_p h_alias_0 h_two h_ref h_up h_band h_band8 h_up_band h_filon h_safim h_fluid h_multi'), Sym('drvgs.c','h_list h_zero h_depths h_near h_grid h_grid_dec h_filon h_safim h_bottom')]
TASKS['P17'] = [Sym('modal.c','h_love20 h_love20o h_love30 h_love31 h_love31o h_lovef1 h_ray20 h_ray20o h_ray30 h_ray31 h_ray31o h_ray31oo h_rayf_ls h_rayf_lso h_rayf_lss1 h_rayf_lls1 h_rayf_sls0 h_rayf_sls1 h_rayf_ssl1 h_en_love h_en_love_sub h_en_love_f h_en_ray h_en_ray_o h_en_ray_sub h_en_ray_f h_en_ray_fh'), Sym('modsum.c','h_love h_love_off h_love_fr h_love_s h_ray h_ray_up h_ray_off h_ray_fr h_ray_fs h_ray_s')]
