/- GENERATED by tools/lean_gen.py: every axiom used by the verifier is proved. -/
import Proofs
namespace SC
variable (V : Type) [Ctx V]
structure All : Prop where
  len_nonneg_V : Ax.a_len_nonneg_V V
  len_emp_V : Ax.a_len_emp_V V
  len_zero_V : Ax.a_len_zero_V V
  unit_V : Ax.a_unit_V V
  cat_len_V : Ax.a_cat_len_V V
  cat_at_V : Ax.a_cat_at_V V
  sl_len_V : Ax.a_sl_len_V V
  sl_at_V : Ax.a_sl_at_V V
  upd_len_V : Ax.a_upd_len_V V
  upd_at_V : Ax.a_upd_at_V V
  ins_len_V : Ax.a_ins_len_V V
  ins_at_V : Ax.a_ins_at_V V
  rem_len_V : Ax.a_rem_len_V V
  rem_at_V : Ax.a_rem_at_V V
  rev_len_V : Ax.a_rev_len_V V
  rev_at_V : Ax.a_rev_at_V V
  rep_le0_V : Ax.a_rep_le0_V V
  rep_len_V : Ax.a_rep_len_V V
  len_nonneg_I : Ax.a_len_nonneg_I V
  len_emp_I : Ax.a_len_emp_I V
  len_zero_I : Ax.a_len_zero_I V
  unit_I : Ax.a_unit_I V
  cat_len_I : Ax.a_cat_len_I V
  cat_at_I : Ax.a_cat_at_I V
  sl_len_I : Ax.a_sl_len_I V
  sl_at_I : Ax.a_sl_at_I V
  upd_len_I : Ax.a_upd_len_I V
  upd_at_I : Ax.a_upd_at_I V
  ins_len_I : Ax.a_ins_len_I V
  ins_at_I : Ax.a_ins_at_I V
  rem_len_I : Ax.a_rem_len_I V
  rem_at_I : Ax.a_rem_at_I V
  rev_len_I : Ax.a_rev_len_I V
  rev_at_I : Ax.a_rev_at_I V
  rep_le0_I : Ax.a_rep_le0_I V
  rep_len_I : Ax.a_rep_len_I V
  len_nonneg_SV : Ax.a_len_nonneg_SV V
  len_emp_SV : Ax.a_len_emp_SV V
  len_zero_SV : Ax.a_len_zero_SV V
  unit_SV : Ax.a_unit_SV V
  cat_len_SV : Ax.a_cat_len_SV V
  cat_at_SV : Ax.a_cat_at_SV V
  sl_len_SV : Ax.a_sl_len_SV V
  sl_at_SV : Ax.a_sl_at_SV V
  upd_len_SV : Ax.a_upd_len_SV V
  upd_at_SV : Ax.a_upd_at_SV V
  ins_len_SV : Ax.a_ins_len_SV V
  ins_at_SV : Ax.a_ins_at_SV V
  rem_len_SV : Ax.a_rem_len_SV V
  rem_at_SV : Ax.a_rem_at_SV V
  rev_len_SV : Ax.a_rev_len_SV V
  rev_at_SV : Ax.a_rev_at_SV V
  rep_le0_SV : Ax.a_rep_le0_SV V
  rep_len_SV : Ax.a_rep_len_SV V
  len_nonneg_SI : Ax.a_len_nonneg_SI V
  len_emp_SI : Ax.a_len_emp_SI V
  len_zero_SI : Ax.a_len_zero_SI V
  unit_SI : Ax.a_unit_SI V
  cat_len_SI : Ax.a_cat_len_SI V
  cat_at_SI : Ax.a_cat_at_SI V
  sl_len_SI : Ax.a_sl_len_SI V
  sl_at_SI : Ax.a_sl_at_SI V
  upd_len_SI : Ax.a_upd_len_SI V
  upd_at_SI : Ax.a_upd_at_SI V
  ins_len_SI : Ax.a_ins_len_SI V
  ins_at_SI : Ax.a_ins_at_SI V
  rem_len_SI : Ax.a_rem_len_SI V
  rem_at_SI : Ax.a_rem_at_SI V
  rev_len_SI : Ax.a_rev_len_SI V
  rev_at_SI : Ax.a_rev_at_SI V
  rep_le0_SI : Ax.a_rep_le0_SI V
  rep_len_SI : Ax.a_rep_len_SI V
  sortedV_elim : Ax.a_sortedV_elim V
  bl_range : Ax.a_bl_range V
  br_range : Ax.a_br_range V
  bl_below : Ax.a_bl_below V
  bl_above : Ax.a_bl_above V
  br_below : Ax.a_br_below V
  br_above : Ax.a_br_above V
  bl_bound : Ax.a_bl_bound V
  br_bound : Ax.a_br_bound V
  bl_le_br : Ax.a_bl_le_br V
  sortedI_elim : Ax.a_sortedI_elim V
  blI_range : Ax.a_blI_range V
  brI_range : Ax.a_brI_range V
  blI_below : Ax.a_blI_below V
  blI_above : Ax.a_blI_above V
  brI_below : Ax.a_brI_below V
  brI_above : Ax.a_brI_above V
  blI_bound : Ax.a_blI_bound V
  brI_bound : Ax.a_brI_bound V
  P_zero : Ax.a_P_zero V
  P_total : Ax.a_P_total V
  P_next : Ax.a_P_next V
  P_mono : Ax.a_P_mono V
  P_range : Ax.a_P_range V
  flat_at : Ax.a_flat_at V
  flat_at_base : Ax.a_flat_at_base V
  flat_seg : Ax.a_flat_seg V
  flat_emp : Ax.a_flat_emp V
  flat_upd : Ax.a_flat_upd V
  flat_ins : Ax.a_flat_ins V
  flat_rem : Ax.a_flat_rem V
  flat_cat : Ax.a_flat_cat V
  flat_unit : Ax.a_flat_unit V
  flat_sl : Ax.a_flat_sl V
  P_upd : Ax.a_P_upd V
  P_ins : Ax.a_P_ins V
  P_rem : Ax.a_P_rem V
  revall_len : Ax.a_revall_len V
  revall_at : Ax.a_revall_at V
  flat_rev : Ax.a_flat_rev V
  flatI_emp : Ax.a_flatI_emp V
  flatI_unit : Ax.a_flatI_unit V
  flatI_cat : Ax.a_flatI_cat V
  flatI_rev_snoc : Ax.a_flatI_rev_snoc V
  flatI_rev_unit : Ax.a_flatI_rev_unit V
  flatI_rev_last : Ax.a_flatI_rev_last V
  mapord_len : Ax.a_mapord_len V
  mapord_at : Ax.a_mapord_at V
  mapord_at2 : Ax.a_mapord_at2 V
  mapord_sorted : Ax.a_mapord_sorted V
  mapord_bl : Ax.a_mapord_bl V
  mapord_br : Ax.a_mapord_br V
  sorted_emp : Ax.a_sorted_emp V
  sorted_unit : Ax.a_sorted_unit V
  sorted_sl : Ax.a_sorted_sl V
  sorted_cat : Ax.a_sorted_cat V
  flat_sorted : Ax.a_flat_sorted V
  ssort_sorted : Ax.a_ssort_sorted V
  ssort_id : Ax.a_ssort_id V
  ssort_cat : Ax.a_ssort_cat V
  ssort_cat_l : Ax.a_ssort_cat_l V
  ssort_snoc : Ax.a_ssort_snoc V
  ssort_add : Ax.a_ssort_add V
  cat_sl0 : Ax.a_cat_sl0 V
  cat_emp : Ax.a_cat_emp V
  sl_full : Ax.a_sl_full V
  nsort_len : Ax.a_nsort_len V
  fdiff : Ax.a_fdiff V
  fdiff_min : Ax.a_fdiff_min V
  first_range : Ax.a_first_range V
  first_min : Ax.a_first_min V
  firstf_range : Ax.a_firstf_range V
  firstf_min : Ax.a_firstf_min V
  cnt_zero : Ax.a_cnt_zero V
  cnt_step : Ax.a_cnt_step V
  cnt_lo : Ax.a_cnt_lo V
  cnt_hi : Ax.a_cnt_hi V
  cnt_plain : Ax.a_cnt_plain V
  first_plain : Ax.a_first_plain V
  firstf_plain : Ax.a_firstf_plain V
  chunks_len : Ax.a_chunks_len V
  chunks_at : Ax.a_chunks_at V
  hlf : Ax.a_hlf V
  pow2_pos : Ax.a_pow2_pos V
  pow2_half : Ax.a_pow2_half V
  pow2_dbl : Ax.a_pow2_dbl V
  pow2_one : Ax.a_pow2_one V
  npow : Ax.a_npow V
  LS_leaf : Ax.a_LS_leaf V
  tree_root : Ax.a_tree_root V
  mem_emp : Ax.a_mem_emp V
  mem_setof : Ax.a_mem_setof V
  mem_at : Ax.a_mem_at V
  mem_union : Ax.a_mem_union V
  mem_inter : Ax.a_mem_inter V
  mem_diff : Ax.a_mem_diff V
  mem_sym : Ax.a_mem_sym V
  mem_add : Ax.a_mem_add V
  mem_del : Ax.a_mem_del V
  setof_emp : Ax.a_setof_emp V
  setof_unit : Ax.a_setof_unit V
  setof_cat : Ax.a_setof_cat V
  setof_ins : Ax.a_setof_ins V
  setof_rem : Ax.a_setof_rem V
  occ_emp : Ax.a_occ_emp V
  occ_unit : Ax.a_occ_unit V
  occ_cat : Ax.a_occ_cat V
  occ_ssort : Ax.a_occ_ssort V
  occ_rev : Ax.a_occ_rev V
  occ_ins : Ax.a_occ_ins V
  occ_rem : Ax.a_occ_rem V
  occ_upd : Ax.a_occ_upd V
  occ_sl : Ax.a_occ_sl V
  setof_ssort : Ax.a_setof_ssort V
  setof_rev : Ax.a_setof_rev V
  setof_snoc : Ax.a_setof_snoc V
  distinct_elim : Ax.a_distinct_elim V
  distinct_emp : Ax.a_distinct_emp V
  distinct_unit : Ax.a_distinct_unit V
  distinct_ins : Ax.a_distinct_ins V
  distinct_rem : Ax.a_distinct_rem V
  distinct_sl : Ax.a_distinct_sl V
  distinct_ssort : Ax.a_distinct_ssort V
  seqof : Ax.a_seqof V
  card_setof : Ax.a_card_setof V
  card_nonneg : Ax.a_card_nonneg V
  dom_emp : Ax.a_dom_emp V
  dom_put : Ax.a_dom_put V
  val_put : Ax.a_val_put V
  dom_del : Ax.a_dom_del V
  val_del : Ax.a_val_del V
  dom_merge : Ax.a_dom_merge V
  val_merge : Ax.a_val_merge V
  mvals_len : Ax.a_mvals_len V
  mvals_at : Ax.a_mvals_at V
  dom_pairs : Ax.a_dom_pairs V
  val_pairs_vals : Ax.a_val_pairs_vals V
  pairs_cat : Ax.a_pairs_cat V
  dom_minus : Ax.a_dom_minus V
  val_minus : Ax.a_val_minus V
  konst : Ax.a_konst V
  konst_at : Ax.a_konst_at V
  val_konst : Ax.a_val_konst V
  subset_elim : Ax.a_subset_elim V
  disjoint_elim : Ax.a_disjoint_elim V
  subset_intro : Ax.a_subset_intro V
  subset_ext : Ax.a_subset_ext V
  distinct_intro : Ax.a_distinct_intro V
  cnt_distinct : Ax.a_cnt_distinct V
  card_sunion : Ax.a_card_sunion V
  card_sinter : Ax.a_card_sinter V
  card_sdiff : Ax.a_card_sdiff V
  mem_sl : Ax.a_mem_sl V
  dom_restr : Ax.a_dom_restr V
  val_restr : Ax.a_val_restr V
  mulf_zero : Ax.a_mulf_zero V
  rlen_pos : Ax.a_rlen_pos V
  rlen_neg : Ax.a_rlen_neg V
  rlen_in : Ax.a_rlen_in V
  rlen_in_neg : Ax.a_rlen_in_neg V
  rms_zero : Ax.a_rms_zero V
  rms_step : Ax.a_rms_step V
  rms_len : Ax.a_rms_len V
  selseq_len : Ax.a_selseq_len V
  selseq_at : Ax.a_selseq_at V
  selseq_distinct : Ax.a_selseq_distinct V
  selseq_sub : Ax.a_selseq_sub V
  setof_rms : Ax.a_setof_rms V
  distinct_rms : Ax.a_distinct_rms V
  treeok_shape : Ax.a_treeok_shape V
  treeok_leaf : Ax.a_treeok_leaf V
  treeok_node : Ax.a_treeok_node V
  sortedV_intro : Ax.a_sortedV_intro V
  LS_unfold : Ax.a_LS_unfold V
  treeok_intro : Ax.a_treeok_intro V
  rw_at_unit : Ax.a_rw_at_unit V
  rw_at_upd_eq : Ax.a_rw_at_upd_eq V
  rw_at_upd_ne : Ax.a_rw_at_upd_ne V
  rw_at_ins_eq : Ax.a_rw_at_ins_eq V
  rw_at_ins_lt : Ax.a_rw_at_ins_lt V
  rw_at_ins_gt : Ax.a_rw_at_ins_gt V
  rw_at_rem_lt : Ax.a_rw_at_rem_lt V
  rw_at_rem_ge : Ax.a_rw_at_rem_ge V
  rw_at_cat_unit_l : Ax.a_rw_at_cat_unit_l V
  rw_at_cat_unit_r : Ax.a_rw_at_cat_unit_r V
  rw_sl_all : Ax.a_rw_sl_all V
  rw_sl_none : Ax.a_rw_sl_none V
  rw_card_semp : Ax.a_rw_card_semp V
  rw_seqof_semp : Ax.a_rw_seqof_semp V
  rw_ssort_emp : Ax.a_rw_ssort_emp V
  rw_upd_upd : Ax.a_rw_upd_upd V
  rw_upd_upd_ne : Ax.a_rw_upd_upd_ne V
  rw_upd_ins_eq : Ax.a_rw_upd_ins_eq V
  rw_upd_ins_lt : Ax.a_rw_upd_ins_lt V
  rw_upd_ins_gt : Ax.a_rw_upd_ins_gt V
  rw_upd_rem_lt : Ax.a_rw_upd_rem_lt V
  rw_upd_rem_ge : Ax.a_rw_upd_rem_ge V
  rw_rem_upd : Ax.a_rw_rem_upd V
  rw_rem_upd_upd : Ax.a_rw_rem_upd_upd V
  rw_rem_ins : Ax.a_rw_rem_ins V
  rw_ins_rem : Ax.a_rw_ins_rem V
theorem all : All V where
  len_nonneg_V := Pr.len_nonneg_V V
  len_emp_V := Pr.len_emp_V V
  len_zero_V := Pr.len_zero_V V
  unit_V := Pr.unit_V V
  cat_len_V := Pr.cat_len_V V
  cat_at_V := Pr.cat_at_V V
  sl_len_V := Pr.sl_len_V V
  sl_at_V := Pr.sl_at_V V
  upd_len_V := Pr.upd_len_V V
  upd_at_V := Pr.upd_at_V V
  ins_len_V := Pr.ins_len_V V
  ins_at_V := Pr.ins_at_V V
  rem_len_V := Pr.rem_len_V V
  rem_at_V := Pr.rem_at_V V
  rev_len_V := Pr.rev_len_V V
  rev_at_V := Pr.rev_at_V V
  rep_le0_V := Pr.rep_le0_V V
  rep_len_V := Pr.rep_len_V V
  len_nonneg_I := Pr.len_nonneg_I V
  len_emp_I := Pr.len_emp_I V
  len_zero_I := Pr.len_zero_I V
  unit_I := Pr.unit_I V
  cat_len_I := Pr.cat_len_I V
  cat_at_I := Pr.cat_at_I V
  sl_len_I := Pr.sl_len_I V
  sl_at_I := Pr.sl_at_I V
  upd_len_I := Pr.upd_len_I V
  upd_at_I := Pr.upd_at_I V
  ins_len_I := Pr.ins_len_I V
  ins_at_I := Pr.ins_at_I V
  rem_len_I := Pr.rem_len_I V
  rem_at_I := Pr.rem_at_I V
  rev_len_I := Pr.rev_len_I V
  rev_at_I := Pr.rev_at_I V
  rep_le0_I := Pr.rep_le0_I V
  rep_len_I := Pr.rep_len_I V
  len_nonneg_SV := Pr.len_nonneg_SV V
  len_emp_SV := Pr.len_emp_SV V
  len_zero_SV := Pr.len_zero_SV V
  unit_SV := Pr.unit_SV V
  cat_len_SV := Pr.cat_len_SV V
  cat_at_SV := Pr.cat_at_SV V
  sl_len_SV := Pr.sl_len_SV V
  sl_at_SV := Pr.sl_at_SV V
  upd_len_SV := Pr.upd_len_SV V
  upd_at_SV := Pr.upd_at_SV V
  ins_len_SV := Pr.ins_len_SV V
  ins_at_SV := Pr.ins_at_SV V
  rem_len_SV := Pr.rem_len_SV V
  rem_at_SV := Pr.rem_at_SV V
  rev_len_SV := Pr.rev_len_SV V
  rev_at_SV := Pr.rev_at_SV V
  rep_le0_SV := Pr.rep_le0_SV V
  rep_len_SV := Pr.rep_len_SV V
  len_nonneg_SI := Pr.len_nonneg_SI V
  len_emp_SI := Pr.len_emp_SI V
  len_zero_SI := Pr.len_zero_SI V
  unit_SI := Pr.unit_SI V
  cat_len_SI := Pr.cat_len_SI V
  cat_at_SI := Pr.cat_at_SI V
  sl_len_SI := Pr.sl_len_SI V
  sl_at_SI := Pr.sl_at_SI V
  upd_len_SI := Pr.upd_len_SI V
  upd_at_SI := Pr.upd_at_SI V
  ins_len_SI := Pr.ins_len_SI V
  ins_at_SI := Pr.ins_at_SI V
  rem_len_SI := Pr.rem_len_SI V
  rem_at_SI := Pr.rem_at_SI V
  rev_len_SI := Pr.rev_len_SI V
  rev_at_SI := Pr.rev_at_SI V
  rep_le0_SI := Pr.rep_le0_SI V
  rep_len_SI := Pr.rep_len_SI V
  sortedV_elim := Pr.sortedV_elim V
  bl_range := Pr.bl_range V
  br_range := Pr.br_range V
  bl_below := Pr.bl_below V
  bl_above := Pr.bl_above V
  br_below := Pr.br_below V
  br_above := Pr.br_above V
  bl_bound := Pr.bl_bound V
  br_bound := Pr.br_bound V
  bl_le_br := Pr.bl_le_br V
  sortedI_elim := Pr.sortedI_elim V
  blI_range := Pr.blI_range V
  brI_range := Pr.brI_range V
  blI_below := Pr.blI_below V
  blI_above := Pr.blI_above V
  brI_below := Pr.brI_below V
  brI_above := Pr.brI_above V
  blI_bound := Pr.blI_bound V
  brI_bound := Pr.brI_bound V
  P_zero := Pr.P_zero V
  P_total := Pr.P_total V
  P_next := Pr.P_next V
  P_mono := Pr.P_mono V
  P_range := Pr.P_range V
  flat_at := Pr.flat_at V
  flat_at_base := Pr.flat_at_base V
  flat_seg := Pr.flat_seg V
  flat_emp := Pr.flat_emp V
  flat_upd := Pr.flat_upd V
  flat_ins := Pr.flat_ins V
  flat_rem := Pr.flat_rem V
  flat_cat := Pr.flat_cat V
  flat_unit := Pr.flat_unit V
  flat_sl := Pr.flat_sl V
  P_upd := Pr.P_upd V
  P_ins := Pr.P_ins V
  P_rem := Pr.P_rem V
  revall_len := Pr.revall_len V
  revall_at := Pr.revall_at V
  flat_rev := Pr.flat_rev V
  flatI_emp := Pr.flatI_emp V
  flatI_unit := Pr.flatI_unit V
  flatI_cat := Pr.flatI_cat V
  flatI_rev_snoc := Pr.flatI_rev_snoc V
  flatI_rev_unit := Pr.flatI_rev_unit V
  flatI_rev_last := Pr.flatI_rev_last V
  mapord_len := Pr.mapord_len V
  mapord_at := Pr.mapord_at V
  mapord_at2 := Pr.mapord_at2 V
  mapord_sorted := Pr.mapord_sorted V
  mapord_bl := Pr.mapord_bl V
  mapord_br := Pr.mapord_br V
  sorted_emp := Pr.sorted_emp V
  sorted_unit := Pr.sorted_unit V
  sorted_sl := Pr.sorted_sl V
  sorted_cat := Pr.sorted_cat V
  flat_sorted := Pr.flat_sorted V
  ssort_sorted := Pr.ssort_sorted V
  ssort_id := Pr.ssort_id V
  ssort_cat := Pr.ssort_cat V
  ssort_cat_l := Pr.ssort_cat_l V
  ssort_snoc := Pr.ssort_snoc V
  ssort_add := Pr.ssort_add V
  cat_sl0 := Pr.cat_sl0 V
  cat_emp := Pr.cat_emp V
  sl_full := Pr.sl_full V
  nsort_len := Pr.nsort_len V
  fdiff := Pr.fdiff V
  fdiff_min := Pr.fdiff_min V
  first_range := Pr.first_range V
  first_min := Pr.first_min V
  firstf_range := Pr.firstf_range V
  firstf_min := Pr.firstf_min V
  cnt_zero := Pr.cnt_zero V
  cnt_step := Pr.cnt_step V
  cnt_lo := Pr.cnt_lo V
  cnt_hi := Pr.cnt_hi V
  cnt_plain := Pr.cnt_plain V
  first_plain := Pr.first_plain V
  firstf_plain := Pr.firstf_plain V
  chunks_len := Pr.chunks_len V
  chunks_at := Pr.chunks_at V
  hlf := Pr.hlf V
  pow2_pos := Pr.pow2_pos V
  pow2_half := Pr.pow2_half V
  pow2_dbl := Pr.pow2_dbl V
  pow2_one := Pr.pow2_one V
  npow := Pr.npow V
  LS_leaf := Pr.LS_leaf V
  tree_root := Pr.tree_root V
  mem_emp := Pr.mem_emp V
  mem_setof := Pr.mem_setof V
  mem_at := Pr.mem_at V
  mem_union := Pr.mem_union V
  mem_inter := Pr.mem_inter V
  mem_diff := Pr.mem_diff V
  mem_sym := Pr.mem_sym V
  mem_add := Pr.mem_add V
  mem_del := Pr.mem_del V
  setof_emp := Pr.setof_emp V
  setof_unit := Pr.setof_unit V
  setof_cat := Pr.setof_cat V
  setof_ins := Pr.setof_ins V
  setof_rem := Pr.setof_rem V
  occ_emp := Pr.occ_emp V
  occ_unit := Pr.occ_unit V
  occ_cat := Pr.occ_cat V
  occ_ssort := Pr.occ_ssort V
  occ_rev := Pr.occ_rev V
  occ_ins := Pr.occ_ins V
  occ_rem := Pr.occ_rem V
  occ_upd := Pr.occ_upd V
  occ_sl := Pr.occ_sl V
  setof_ssort := Pr.setof_ssort V
  setof_rev := Pr.setof_rev V
  setof_snoc := Pr.setof_snoc V
  distinct_elim := Pr.distinct_elim V
  distinct_emp := Pr.distinct_emp V
  distinct_unit := Pr.distinct_unit V
  distinct_ins := Pr.distinct_ins V
  distinct_rem := Pr.distinct_rem V
  distinct_sl := Pr.distinct_sl V
  distinct_ssort := Pr.distinct_ssort V
  seqof := Pr.seqof V
  card_setof := Pr.card_setof V
  card_nonneg := Pr.card_nonneg V
  dom_emp := Pr.dom_emp V
  dom_put := Pr.dom_put V
  val_put := Pr.val_put V
  dom_del := Pr.dom_del V
  val_del := Pr.val_del V
  dom_merge := Pr.dom_merge V
  val_merge := Pr.val_merge V
  mvals_len := Pr.mvals_len V
  mvals_at := Pr.mvals_at V
  dom_pairs := Pr.dom_pairs V
  val_pairs_vals := Pr.val_pairs_vals V
  pairs_cat := Pr.pairs_cat V
  dom_minus := Pr.dom_minus V
  val_minus := Pr.val_minus V
  konst := Pr.konst V
  konst_at := Pr.konst_at V
  val_konst := Pr.val_konst V
  subset_elim := Pr.subset_elim V
  disjoint_elim := Pr.disjoint_elim V
  subset_intro := Pr.subset_intro V
  subset_ext := Pr.subset_ext V
  distinct_intro := Pr.distinct_intro V
  cnt_distinct := Pr.cnt_distinct V
  card_sunion := Pr.card_sunion V
  card_sinter := Pr.card_sinter V
  card_sdiff := Pr.card_sdiff V
  mem_sl := Pr.mem_sl V
  dom_restr := Pr.dom_restr V
  val_restr := Pr.val_restr V
  mulf_zero := Pr.mulf_zero V
  rlen_pos := Pr.rlen_pos V
  rlen_neg := Pr.rlen_neg V
  rlen_in := Pr.rlen_in V
  rlen_in_neg := Pr.rlen_in_neg V
  rms_zero := Pr.rms_zero V
  rms_step := Pr.rms_step V
  rms_len := Pr.rms_len V
  selseq_len := Pr.selseq_len V
  selseq_at := Pr.selseq_at V
  selseq_distinct := Pr.selseq_distinct V
  selseq_sub := Pr.selseq_sub V
  setof_rms := Pr.setof_rms V
  distinct_rms := Pr.distinct_rms V
  treeok_shape := Pr.treeok_shape V
  treeok_leaf := Pr.treeok_leaf V
  treeok_node := Pr.treeok_node V
  sortedV_intro := Pr.sortedV_intro V
  LS_unfold := Pr.LS_unfold V
  treeok_intro := Pr.treeok_intro V
  rw_at_unit := Pr.rw_at_unit V
  rw_at_upd_eq := Pr.rw_at_upd_eq V
  rw_at_upd_ne := Pr.rw_at_upd_ne V
  rw_at_ins_eq := Pr.rw_at_ins_eq V
  rw_at_ins_lt := Pr.rw_at_ins_lt V
  rw_at_ins_gt := Pr.rw_at_ins_gt V
  rw_at_rem_lt := Pr.rw_at_rem_lt V
  rw_at_rem_ge := Pr.rw_at_rem_ge V
  rw_at_cat_unit_l := Pr.rw_at_cat_unit_l V
  rw_at_cat_unit_r := Pr.rw_at_cat_unit_r V
  rw_sl_all := Pr.rw_sl_all V
  rw_sl_none := Pr.rw_sl_none V
  rw_card_semp := Pr.rw_card_semp V
  rw_seqof_semp := Pr.rw_seqof_semp V
  rw_ssort_emp := Pr.rw_ssort_emp V
  rw_upd_upd := Pr.rw_upd_upd V
  rw_upd_upd_ne := Pr.rw_upd_upd_ne V
  rw_upd_ins_eq := Pr.rw_upd_ins_eq V
  rw_upd_ins_lt := Pr.rw_upd_ins_lt V
  rw_upd_ins_gt := Pr.rw_upd_ins_gt V
  rw_upd_rem_lt := Pr.rw_upd_rem_lt V
  rw_upd_rem_ge := Pr.rw_upd_rem_ge V
  rw_rem_upd := Pr.rw_rem_upd V
  rw_rem_upd_upd := Pr.rw_rem_upd_upd V
  rw_rem_ins := Pr.rw_rem_ins V
  rw_ins_rem := Pr.rw_ins_rem V
end SC
#print axioms SC.all
