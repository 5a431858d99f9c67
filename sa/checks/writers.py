"""Public functions that must leave all arguments unchanged, and the position of the one that an update may write."""
PURE = """
lom._numba.lambda_updates_numba.get_scalar_output_function_2d
lom._numba.lambda_updates_numba.get_scalar_output_function_3d
lom._numba.lambda_updates_numba.make_correct_predictions_counter
lom._numba.lambda_updates_numba.make_correct_predictions_counter.correct_predictions_counter
lom._numba.lambda_updates_numba.make_lbda_update_fct
lom._numba.lambda_updates_numba.make_output_function_2d
lom._numba.lambda_updates_numba.make_output_function_2d.output_function_2d
lom._numba.lambda_updates_numba.make_output_function_2d_fuzzy
lom._numba.lambda_updates_numba.make_output_function_2d_fuzzy.output_function_2d
lom._numba.lambda_updates_numba.make_output_function_3d
lom._numba.lambda_updates_numba.make_output_function_3d.output_function_3d
lom._numba.lambda_updates_numba.make_output_function_3d_fuzzy
lom._numba.lambda_updates_numba.make_output_function_3d_fuzzy.output_function_3d
lom._numba.lom_outputs.MAX_AND_product_2d
lom._numba.lom_outputs.NAND_XOR_product
lom._numba.lom_outputs.NAND_XOR_product_3d
lom._numba.lom_outputs.OR_AND_product
lom._numba.lom_outputs.OR_AND_product_3d
lom._numba.lom_outputs.OR_AND_product_expand
lom._numba.lom_outputs.OR_AND_single_n
lom._numba.lom_outputs.OR_NAND_product
lom._numba.lom_outputs.OR_NAND_product_3d
lom._numba.lom_outputs.OR_XOR_product
lom._numba.lom_outputs.OR_XOR_product_3d
lom._numba.lom_outputs.XOR_AND_product
lom._numba.lom_outputs.XOR_AND_product_3d
lom._numba.lom_outputs.XOR_NAND_product
lom._numba.lom_outputs.XOR_NAND_product_3d
lom._numba.lom_outputs.XOR_NXOR_product
lom._numba.lom_outputs.XOR_NXOR_product_3d
lom._numba.lom_outputs.XOR_XOR_product
lom._numba.lom_outputs.XOR_XOR_product_3d
lom._numba.lom_outputs.qL_AND_product
lom._numba.lom_outputs_fuzzy.MAX_AND_product_fuzzy
lom._numba.lom_outputs_fuzzy.NAND_XOR_product_fuzzy
lom._numba.lom_outputs_fuzzy.NAND_XOR_product_fuzzy_3d
lom._numba.lom_outputs_fuzzy.OR_AND_product_fuzzy
lom._numba.lom_outputs_fuzzy.OR_AND_product_fuzzy_3d
lom._numba.lom_outputs_fuzzy.OR_NAND_product_fuzzy
lom._numba.lom_outputs_fuzzy.OR_NAND_product_fuzzy_3d
lom._numba.lom_outputs_fuzzy.OR_XOR_product_fuzzy
lom._numba.lom_outputs_fuzzy.OR_XOR_product_fuzzy_3d
lom._numba.lom_outputs_fuzzy.XOR_AND_product_fuzzy
lom._numba.lom_outputs_fuzzy.XOR_AND_product_fuzzy_3d
lom._numba.lom_outputs_fuzzy.XOR_NAND_product_fuzzy
lom._numba.lom_outputs_fuzzy.XOR_NAND_product_fuzzy_3d
lom._numba.lom_outputs_fuzzy.XOR_NXOR_product_fuzzy
lom._numba.lom_outputs_fuzzy.XOR_NXOR_product_fuzzy_3d
lom._numba.lom_outputs_fuzzy.XOR_XOR_product_fuzzy
lom._numba.lom_outputs_fuzzy.XOR_XOR_product_fuzzy_3d
lom._numba.lom_outputs_fuzzy.p_XOR_fuzzy_3d
lom._numba.matrix_updates_numba.flip_gibbs_numba
lom._numba.matrix_updates_numba.flip_metropolised_gibbs_numba
lom._numba.matrix_updates_numba.flip_metropolised_gibbs_numba_classic
lom._numba.matrix_updates_numba.get_parent_score_fct
lom._numba.matrix_updates_numba.get_posterior_score_fct
lom._numba.matrix_updates_numba.make_sampling_fct_nochild_oneparent
lom._numba.matrix_updates_numba.make_sampling_fct_nochild_twoparents
lom._numba.matrix_updates_numba.make_sampling_fct_onechild
lom._numba.matrix_updates_numba.make_sampling_fct_onechild_oneparent
lom._numba.matrix_updates_numba.make_sampling_fct_onechild_twoparents
lom._numba.matrix_updates_numba.posterior_score_fct_qL_U
lom._numba.matrix_updates_numba.posterior_score_fct_qL_Z
lom._numba.matrix_updates_numba.random_choice
lom._numba.max_machine_sampler.maxmachine_forward_pass
lom._numba.max_machine_sampler.posterior_score_MAX_AND_2D
lom._numba.posterior_score_fcts.posterior_score_NAND_XOR_2D
lom._numba.posterior_score_fcts.posterior_score_NAND_XOR_3D
lom._numba.posterior_score_fcts.posterior_score_OR_AND_2D
lom._numba.posterior_score_fcts.posterior_score_OR_AND_3D
lom._numba.posterior_score_fcts.posterior_score_OR_NAND_2D
lom._numba.posterior_score_fcts.posterior_score_OR_NAND_3D
lom._numba.posterior_score_fcts.posterior_score_OR_XOR_2D
lom._numba.posterior_score_fcts.posterior_score_OR_XOR_3D
lom._numba.posterior_score_fcts.posterior_score_XOR_AND_2D
lom._numba.posterior_score_fcts.posterior_score_XOR_AND_3D
lom._numba.posterior_score_fcts.posterior_score_XOR_NAND_2D
lom._numba.posterior_score_fcts.posterior_score_XOR_NAND_3D
lom._numba.posterior_score_fcts.posterior_score_XOR_NXOR_2D
lom._numba.posterior_score_fcts.posterior_score_XOR_NXOR_3D
lom._numba.posterior_score_fcts.posterior_score_XOR_XOR_2D
lom._numba.posterior_score_fcts.posterior_score_XOR_XOR_3D
lom.auxiliary_functions.add_bernoulli_noise
lom.auxiliary_functions.add_bernoulli_noise_2d
lom.auxiliary_functions.add_bernoulli_noise_2d_biased
lom.auxiliary_functions.all_columsn_are_disjoint
lom.auxiliary_functions.boolean_tensor_product
lom.auxiliary_functions.canonical_loms
lom.auxiliary_functions.check_binary_coding
lom.auxiliary_functions.check_convergence_single_trace
lom.auxiliary_functions.compute_bbp
lom.auxiliary_functions.compute_bp
lom.auxiliary_functions.expected_density
lom.auxiliary_functions.expected_density.identity
lom.auxiliary_functions.expected_density.invert
lom.auxiliary_functions.expit
lom.auxiliary_functions.factor_density
lom.auxiliary_functions.factor_density.func
lom.auxiliary_functions.find_centers_of_ordered_list
lom.auxiliary_functions.generate_orm_product
lom.auxiliary_functions.generate_orm_product.disjoint_columns_mat
lom.auxiliary_functions.get_fuzzy_lop
lom.auxiliary_functions.get_fuzzy_lop.AND
lom.auxiliary_functions.get_fuzzy_lop.NAND
lom.auxiliary_functions.get_fuzzy_lop.NOR
lom.auxiliary_functions.get_fuzzy_lop.NXOR
lom.auxiliary_functions.get_fuzzy_lop.OR
lom.auxiliary_functions.get_fuzzy_lop.XOR
lom.auxiliary_functions.get_lom_class
lom.auxiliary_functions.get_lop
lom.auxiliary_functions.get_lop.AND
lom.auxiliary_functions.get_lop.NAND
lom.auxiliary_functions.get_lop.NOR
lom.auxiliary_functions.get_lop.NXOR
lom.auxiliary_functions.get_lop.OR
lom.auxiliary_functions.get_lop.XOR
lom.auxiliary_functions.get_roc_auc
lom.auxiliary_functions.intersect_dataframes
lom.auxiliary_functions.logit
lom.auxiliary_functions.logsumexp
lom.auxiliary_functions.lom_generate_data
lom.auxiliary_functions.lom_generate_data_fast
lom.auxiliary_functions.lom_generate_data_fuzzy
lom.auxiliary_functions.predict_applicability_fast
lom.auxiliary_functions.predict_applicability_simple
lom.auxiliary_functions.random_machine_matrix
lom.auxiliary_functions.replace_equivalent_model
lom.auxiliary_functions.split_test_train
lom.auxiliary_functions.unique_ordered
lom.experiments.LOM_factorise
lom.experiments.LOM_hyperparms_parallel_gridsearch
lom.experiments.LOM_predictive
lom.experiments.dbtf_reconstruct
lom.experiments.generate_random_tensor
lom.experiments.generate_random_tensor.d_f
lom.experiments.split_tensor_train_test_old
lom.experiments.split_train_test
lom.experiments.tensorm_reconstruct
lom.experiments.tensorm_reconstruct_indp
lom.lambda_update_wrappers.get_update_fct
lom.machine.MachineLayer.output
lom.matrix_update_wrappers.get_relatives_models
""".split()

FIRST = {
    'lom._numba.lambda_updates_numba.make_lbda_update_fct.lbda_update_fct': 0,
    'lom._numba.matrix_updates_numba.make_sampling_fct_nochild_oneparent.sampling_fct': 0,
    'lom._numba.matrix_updates_numba.make_sampling_fct_nochild_twoparents.sampling_fct': 0,
    'lom._numba.matrix_updates_numba.make_sampling_fct_onechild.sampling_fct': 0,
    'lom._numba.matrix_updates_numba.make_sampling_fct_onechild_oneparent.sampling_fct': 0,
    'lom._numba.matrix_updates_numba.make_sampling_fct_onechild_twoparents.sampling_fct': 0,
    'lom._numba.matrix_updates_numba.sample_2d_IBP': 0,
    'lom._numba.matrix_updates_numba.sample_qL_factors_U': 0,
    'lom._numba.matrix_updates_numba.sample_qL_factors_Z': 0,
    'lom._numba.matrix_updates_numba.sample_qL_q': 3,
    'lom._numba.max_machine_sampler.draw_MAX_AND_2D': 0,
    'lom._numba.max_machine_sampler.lbda_MAX_AND': 0,
    'lom.lambda_update_wrappers.draw_lbda_or': 0,
    'lom.lambda_update_wrappers.draw_lbda_or_balanced': 0,
    'lom.lambda_update_wrappers.draw_lbda_tensorm_indp_m': 0,
    'lom.lambda_update_wrappers.draw_lbda_tensorm_indp_p': 0,
    'lom.lambda_update_wrappers.get_update_fct.MAX_AND_2D_lbda': 0,
}
