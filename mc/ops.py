"""Opcode table of the WebAssembly 2.0 binary format, written out here on purpose: the checks must not take their
encodings from the code under test."""

TABLE = '''
unreachable=00 nop=01 block=02 loop=03 if=04 else=05 
end=0b br=0c br_if=0d br_table=0e return=0f call=10 
call_indirect=11 drop=1a select=1b select_type=1c local_get=20 local_set=21 
local_tee=22 global_get=23 global_set=24 table_get=25 table_set=26 i32_load=28 
i64_load=29 f32_load=2a f64_load=2b i32_load8_s=2c i32_load8_u=2d i32_load16_s=2e 
i32_load16_u=2f i64_load8_s=30 i64_load8_u=31 i64_load16_s=32 i64_load16_u=33 i64_load32_s=34 
i64_load32_u=35 i32_store=36 i64_store=37 f32_store=38 f64_store=39 i32_store8=3a 
i32_store16=3b i64_store8=3c i64_store16=3d i64_store32=3e memory_size=3f memory_grow=40 
i32_const=41 i64_const=42 f32_const=43 f64_const=44 i32_eqz=45 i32_eq=46 
i32_ne=47 i32_lt_s=48 i32_lt_u=49 i32_gt_s=4a i32_gt_u=4b i32_le_s=4c 
i32_le_u=4d i32_ge_s=4e i32_ge_u=4f i64_eqz=50 i64_eq=51 i64_ne=52 
i64_lt_s=53 i64_lt_u=54 i64_gt_s=55 i64_gt_u=56 i64_le_s=57 i64_le_u=58 
i64_ge_s=59 i64_ge_u=5a f32_eq=5b f32_ne=5c f32_lt=5d f32_gt=5e 
f32_le=5f f32_ge=60 f64_eq=61 f64_ne=62 f64_lt=63 f64_gt=64 
f64_le=65 f64_ge=66 i32_clz=67 i32_ctz=68 i32_popcnt=69 i32_add=6a 
i32_sub=6b i32_mul=6c i32_div_s=6d i32_div_u=6e i32_rem_s=6f i32_rem_u=70 
i32_and=71 i32_or=72 i32_xor=73 i32_shl=74 i32_shr_s=75 i32_shr_u=76 
i32_rotl=77 i32_rotr=78 i64_clz=79 i64_ctz=7a i64_popcnt=7b i64_add=7c 
i64_sub=7d i64_mul=7e i64_div_s=7f i64_div_u=80 i64_rem_s=81 i64_rem_u=82 
i64_and=83 i64_or=84 i64_xor=85 i64_shl=86 i64_shr_s=87 i64_shr_u=88 
i64_rotl=89 i64_rotr=8a f32_abs=8b f32_neg=8c f32_ceil=8d f32_floor=8e 
f32_trunc=8f f32_nearest=90 f32_sqrt=91 f32_add=92 f32_sub=93 f32_mul=94 
f32_div=95 f32_min=96 f32_max=97 f32_copysign=98 f64_abs=99 f64_neg=9a 
f64_ceil=9b f64_floor=9c f64_trunc=9d f64_nearest=9e f64_sqrt=9f f64_add=a0 
f64_sub=a1 f64_mul=a2 f64_div=a3 f64_min=a4 f64_max=a5 f64_copysign=a6 
i32_wrap_i64=a7 i32_trunc_f32_s=a8 i32_trunc_f32_u=a9 i32_trunc_f64_s=aa i32_trunc_f64_u=ab i64_extend_i32_s=ac 
i64_extend_i32_u=ad i64_trunc_f32_s=ae i64_trunc_f32_u=af i64_trunc_f64_s=b0 i64_trunc_f64_u=b1 f32_convert_i32_s=b2 
f32_convert_i32_u=b3 f32_convert_i64_s=b4 f32_convert_i64_u=b5 f32_demote_f64=b6 f64_convert_i32_s=b7 f64_convert_i32_u=b8 
f64_convert_i64_s=b9 f64_convert_i64_u=ba f64_promote_f32=bb i32_reinterpret_f32=bc i64_reinterpret_f64=bd f32_reinterpret_i32=be 
f64_reinterpret_i64=bf i32_extend8_s=c0 i32_extend16_s=c1 i64_extend8_s=c2 i64_extend16_s=c3 i64_extend32_s=c4 
ref_null=d0 ref_is_null=d1 ref_func=d2 i32_trunc_sat_f32_s=fc00 i32_trunc_sat_f32_u=fc01 i32_trunc_sat_f64_s=fc02 
i32_trunc_sat_f64_u=fc03 i64_trunc_sat_f32_s=fc04 i64_trunc_sat_f32_u=fc05 i64_trunc_sat_f64_s=fc06 i64_trunc_sat_f64_u=fc07 memory_init=fc08 
data_drop=fc09 memory_copy=fc0a memory_fill=fc0b table_init=fc0c elem_drop=fc0d table_copy=fc0e 
table_grow=fc0f table_size=fc10 table_fill=fc11 v128_load=fd00 v128_load8x8_s=fd01 v128_load8x8_u=fd02 
v128_load16x4_s=fd03 v128_load16x4_u=fd04 v128_load32x2_s=fd05 v128_load32x2_u=fd06 v128_load8_splat=fd07 v128_load16_splat=fd08 
v128_load32_splat=fd09 v128_load64_splat=fd0a v128_store=fd0b v128_const=fd0c i8x16_shuffle=fd0d i8x16_swizzle=fd0e 
i8x16_splat=fd0f i16x8_splat=fd10 i32x4_splat=fd11 i64x2_splat=fd12 f32x4_splat=fd13 f64x2_splat=fd14 
i8x16_extract_lane_s=fd15 i8x16_extract_lane_u=fd16 i8x16_replace_lane=fd17 i16x8_extract_lane_s=fd18 i16x8_extract_lane_u=fd19 i16x8_replace_lane=fd1a 
i32x4_extract_lane=fd1b i32x4_replace_lane=fd1c i64x2_extract_lane=fd1d i64x2_replace_lane=fd1e f32x4_extract_lane=fd1f f32x4_replace_lane=fd20 
f64x2_extract_lane=fd21 f64x2_replace_lane=fd22 i8x16_eq=fd23 i8x16_ne=fd24 i8x16_lt_s=fd25 i8x16_lt_u=fd26 
i8x16_gt_s=fd27 i8x16_gt_u=fd28 i8x16_le_s=fd29 i8x16_le_u=fd2a i8x16_ge_s=fd2b i8x16_ge_u=fd2c 
i16x8_eq=fd2d i16x8_ne=fd2e i16x8_lt_s=fd2f i16x8_lt_u=fd30 i16x8_gt_s=fd31 i16x8_gt_u=fd32 
i16x8_le_s=fd33 i16x8_le_u=fd34 i16x8_ge_s=fd35 i16x8_ge_u=fd36 i32x4_eq=fd37 i32x4_ne=fd38 
i32x4_lt_s=fd39 i32x4_lt_u=fd3a i32x4_gt_s=fd3b i32x4_gt_u=fd3c i32x4_le_s=fd3d i32x4_le_u=fd3e 
i32x4_ge_s=fd3f i32x4_ge_u=fd40 f32x4_eq=fd41 f32x4_ne=fd42 f32x4_lt=fd43 f32x4_gt=fd44 
f32x4_le=fd45 f32x4_ge=fd46 f64x2_eq=fd47 f64x2_ne=fd48 f64x2_lt=fd49 f64x2_gt=fd4a 
f64x2_le=fd4b f64x2_ge=fd4c v128_not=fd4d v128_and=fd4e v128_andnot=fd4f v128_or=fd50 
v128_xor=fd51 v128_bitselect=fd52 v128_any_true=fd53 v128_load8_lane=fd54 v128_load16_lane=fd55 v128_load32_lane=fd56 
v128_load64_lane=fd57 v128_store8_lane=fd58 v128_store16_lane=fd59 v128_store32_lane=fd5a v128_store64_lane=fd5b v128_load32_zero=fd5c 
v128_load64_zero=fd5d f32x4_demote_f64x2_zero=fd5e f64x2_promote_low_f32x4=fd5f i8x16_abs=fd60 i8x16_neg=fd61 i8x16_popcnt=fd62 
i8x16_all_true=fd63 i8x16_bitmask=fd64 i8x16_narrow_i16x8_s=fd65 i8x16_narrow_i16x8_u=fd66 f32x4_ceil=fd67 f32x4_floor=fd68 
f32x4_trunc=fd69 f32x4_nearest=fd6a i8x16_shl=fd6b i8x16_shr_s=fd6c i8x16_shr_u=fd6d i8x16_add=fd6e 
i8x16_add_sat_s=fd6f i8x16_add_sat_u=fd70 i8x16_sub=fd71 i8x16_sub_sat_s=fd72 i8x16_sub_sat_u=fd73 f64x2_ceil=fd74 
f64x2_floor=fd75 i8x16_min_s=fd76 i8x16_min_u=fd77 i8x16_max_s=fd78 i8x16_max_u=fd79 f64x2_trunc=fd7a 
i8x16_avgr_u=fd7b i16x8_extadd_pairwise_i8x16_s=fd7c i16x8_extadd_pairwise_i8x16_u=fd7d i32x4_extadd_pairwise_i16x8_s=fd7e i32x4_extadd_pairwise_i16x8_u=fd7f i16x8_abs=fd8001 
i16x8_neg=fd8101 i16x8_q15mulr_sat_s=fd8201 i16x8_all_true=fd8301 i16x8_bitmask=fd8401 i16x8_narrow_i32x4_s=fd8501 i16x8_narrow_i32x4_u=fd8601 
i16x8_extend_low_i8x16_s=fd8701 i16x8_extend_high_i8x16_s=fd8801 i16x8_extend_low_i8x16_u=fd8901 i16x8_extend_high_i8x16_u=fd8a01 i16x8_shl=fd8b01 i16x8_shr_s=fd8c01 
i16x8_shr_u=fd8d01 i16x8_add=fd8e01 i16x8_add_sat_s=fd8f01 i16x8_add_sat_u=fd9001 i16x8_sub=fd9101 i16x8_sub_sat_s=fd9201 
i16x8_sub_sat_u=fd9301 f64x2_nearest=fd9401 i16x8_mul=fd9501 i16x8_min_s=fd9601 i16x8_min_u=fd9701 i16x8_max_s=fd9801 
i16x8_max_u=fd9901 i16x8_avgr_u=fd9b01 i16x8_extmul_low_i8x16_s=fd9c01 i16x8_extmul_high_i8x16_s=fd9d01 i16x8_extmul_low_i8x16_u=fd9e01 i16x8_extmul_high_i8x16_u=fd9f01 
i32x4_abs=fda001 i32x4_neg=fda101 i32x4_all_true=fda301 i32x4_bitmask=fda401 i32x4_extend_low_i16x8_s=fda701 i32x4_extend_high_i16x8_s=fda801 
i32x4_extend_low_i16x8_u=fda901 i32x4_extend_high_i16x8_u=fdaa01 i32x4_shl=fdab01 i32x4_shr_s=fdac01 i32x4_shr_u=fdad01 i32x4_add=fdae01 
i32x4_sub=fdb101 i32x4_mul=fdb501 i32x4_min_s=fdb601 i32x4_min_u=fdb701 i32x4_max_s=fdb801 i32x4_max_u=fdb901 
i32x4_dot_i16x8_s=fdba01 i32x4_extmul_low_i16x8_s=fdbc01 i32x4_extmul_high_i16x8_s=fdbd01 i32x4_extmul_low_i16x8_u=fdbe01 i32x4_extmul_high_i16x8_u=fdbf01 i64x2_abs=fdc001 
i64x2_neg=fdc101 i64x2_all_true=fdc301 i64x2_bitmask=fdc401 i64x2_extend_low_i32x4_s=fdc701 i64x2_extend_high_i32x4_s=fdc801 i64x2_extend_low_i32x4_u=fdc901 
i64x2_extend_high_i32x4_u=fdca01 i64x2_shl=fdcb01 i64x2_shr_s=fdcc01 i64x2_shr_u=fdcd01 i64x2_add=fdce01 i64x2_sub=fdd101 
i64x2_mul=fdd501 i64x2_eq=fdd601 i64x2_ne=fdd701 i64x2_lt_s=fdd801 i64x2_gt_s=fdd901 i64x2_le_s=fdda01 
i64x2_ge_s=fddb01 i64x2_extmul_low_i32x4_s=fddc01 i64x2_extmul_high_i32x4_s=fddd01 i64x2_extmul_low_i32x4_u=fdde01 i64x2_extmul_high_i32x4_u=fddf01 f32x4_abs=fde001 
f32x4_neg=fde101 f32x4_sqrt=fde301 f32x4_add=fde401 f32x4_sub=fde501 f32x4_mul=fde601 f32x4_div=fde701 
f32x4_min=fde801 f32x4_max=fde901 f32x4_pmin=fdea01 f32x4_pmax=fdeb01 f64x2_abs=fdec01 f64x2_neg=fded01 
f64x2_sqrt=fdef01 f64x2_add=fdf001 f64x2_sub=fdf101 f64x2_mul=fdf201 f64x2_div=fdf301 f64x2_min=fdf401 
f64x2_max=fdf501 f64x2_pmin=fdf601 f64x2_pmax=fdf701 i32x4_trunc_sat_f32x4_s=fdf801 i32x4_trunc_sat_f32x4_u=fdf901 f32x4_convert_i32x4_s=fdfa01 
f32x4_convert_i32x4_u=fdfb01 i32x4_trunc_sat_f64x2_s_zero=fdfc01 i32x4_trunc_sat_f64x2_u_zero=fdfd01 f64x2_convert_low_i32x4_s=fdfe01 f64x2_convert_low_i32x4_u=fdff01 '''

OPS = {}
for _e in TABLE.split():
    _k, _v = _e.split('=')
    OPS[_k] = bytes.fromhex(_v)
assert len(OPS) == len(set(OPS.values()))
