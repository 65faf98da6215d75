// Automatically-generated code; do not edit.

////// YASK implementation of the 'test_3d radius 2' stencil //////
namespace yask
{

  // /// Stencil var type(s).
  // General array layout order (outer-to-inner): t, x, y, z.

  // The 4-D var 'A', which is updated by one or more equations.
  // Dimensions in parameter (declaration) order: 't'(#1), 'x'(#2), 'y'(#3),
  // 'z'(#4).
  // Dimensions in layout order: t, x, y, z.
  typedef YkVecVar < Layout_1234, true, 1, 1, 4, 1 > var_A_base_t;
  typedef std::shared_ptr < var_A_base_t > var_A_base_ptr_t;
  typedef YkVecVarCore < Layout_1234, true, 1, 1, 4, 1 > var_A_core_t;

  // Per-thread data needed in kernel(s).
  struct stencil_test_3d_thread_core_t
  {

    // No per-thread data needed for this stencil.
  };				// stencil_test_3d_thread_core_t

  // Data needed in kernel(s).
  struct stencil_test_3d_core_t:public StencilCoreBase
  {

    // Pointer(s) to var core data.
    synced_ptr < var_A_core_t > var_A_core_p;

    // List of pointer(s) to per-thread data.
    synced_ptr < stencil_test_3d_thread_core_t > _thread_core_list;
  };				// stencil_test_3d_core_t

  // ////// Stencil stage 'stage_1' //////

  // //// Stencil part 'part_1' w/o domain condition and w/o step condition
  // //////

  struct stencil_test_3d_part_1
  {
    const char *_name = "part_1";

    // Per-point work stats for this part.
    const int _scalar_fp_ops = 8;
    const int _scalar_points_read = 9;
    const int _scalar_points_written = 1;
    const bool _is_scratch = false;

    // 8 FP operation(s) per point:
    // A((t + 1), x, y, z) EQUALS (A(t, x, y, z) + A(t, (x - 2), (y - 6), (z
    // - 4)) + A(t, (x - 2), (y - 6), (z + 3)) + A(t, (x - 2), (y + 5), (z -
    // 4)) + A(t, (x - 2), (y + 5), (z + 3)) + A(t, (x + 4), (y - 6), (z -
    // 4)) + A(t, (x + 4), (y - 6), (z + 3)) + A(t, (x + 4), (y + 5), (z -
    // 4)) + A(t, (x + 4), (y + 5), (z + 3))).

    // Determine whether stencil_test_3d_part_1 is valid at the domain
    // indices t, x, y, z.
    // Return 'true' if indices are within the valid sub-domain or false
    // otherwise.
    ALWAYS_INLINE static bool is_in_valid_domain (const stencil_test_3d_core_t
      * core_data, const Indices & idxs)
    {
      host_assert (core_data);

      // Extract index for each stencil dim.
      idx_t t = idxs[0];
      idx_t x = idxs[1];
      idx_t y = idxs[2];
      idx_t z = idxs[3];
        return true;		// full domain.
    }

    // Return whether there is a sub-domain expression.
    ALWAYS_INLINE static bool is_sub_domain_expr ()
    {
      return false;
    }

    // Return human-readable description of sub-domain.
    inline std::string get_domain_description () const
    {
      return "true";		// full domain.
    }

    // Determine whether stencil_test_3d_part_1 is valid at the step
    // input_step_index.
    // Return 'true' if valid or 'false' otherwise.
    ALWAYS_INLINE static bool is_in_valid_step (const stencil_test_3d_core_t *
      core_data, idx_t input_step_index)
    {
      host_assert (core_data);
      return true;		// any step.
    }

    // Return whether there is a step-condition expression.
    ALWAYS_INLINE static bool is_step_cond_expr ()
    {
      return false;
    }

    // Return human-readable description of step condition.
    inline std::string get_step_cond_description () const
    {
      return "true";		// any step.
    }

    // Set 'output_step_index' to the step that an update occurs when calling 
    // 
    // one of the calc_*() methods with 'input_step_index' and return 'true'.
    ALWAYS_INLINE static bool get_output_step_index (idx_t input_step_index,
      idx_t & output_step_index)
    {
      idx_t t = input_step_index;
      output_step_index = (t + 1);
      return true;
    }

    // Calculate one scalar result relative to indices t, x, y, z.
    // There are approximately 8 FP operation(s) per invocation.
    static void calc_scalar (stencil_test_3d_core_t * core_data, int core_idx,
      const Indices & idxs)
    {
      host_assert (core_data);
      host_assert (core_data->_thread_core_list.get ());
      auto & thread_core_data = core_data->_thread_core_list[core_idx];

      // Extract index for each stencil dim.
      idx_t t = idxs[0];
      idx_t x = idxs[1];
      idx_t y = idxs[2];
      idx_t z = idxs[3];
      auto *expr_temp1 = core_data->var_A_core_p.get ();
      const auto step_temp2 = imod_flr < idx_t > (t, 2);

      // expr_temp3 = (A(t, x, y, z) + A(t, (x - 2), (y - 6), (z - 4)) + A(t, 
      // 
      // (x - 2), (y - 6), (z + 3)) + A(t, (x - 2), (y + 5), (z - 4)) + A(t,
      // (x - 2), (y + 5), (z + 3)) + A(t, (x + 4), (y - 6), (z - 4)) + A(t,
      // (x + 4), (y - 6), (z + 3)) + A(t, (x + 4), (y + 5), (z - 4)) + A(t,
      // (x + 4), (y + 5), (z + 3))).
      real_t expr_temp3 = (expr_temp1->read_elem ({ t, x, y, z },
	  step_temp2) + expr_temp1->read_elem ({ t, (x - 2), (y - 6),
	    (z - 4)
	  }, step_temp2) + expr_temp1->read_elem ({ t, (x - 2),
	    (y - 6), (z + 3)
	  }, step_temp2) + expr_temp1->read_elem ({ t,
	    (x - 2), (y + 5), (z - 4)
	  },
	  step_temp2) + expr_temp1->read_elem ({ t, (x - 2), (y + 5),
	    (z + 3)
	  }, step_temp2) + expr_temp1->read_elem ({ t, (x + 4),
	    (y - 6), (z - 4)
	  }, step_temp2) + expr_temp1->read_elem ({ t,
	    (x + 4), (y - 6), (z + 3)
	  },
	  step_temp2) + expr_temp1->read_elem ({ t, (x + 4), (y + 5),
	    (z - 4)
	  }, step_temp2) + expr_temp1->read_elem ({ t, (x + 4),
	    (y + 5), (z + 3)
	  }, step_temp2));

      // Update value at A((t + 1), x, y, z).
      const auto step_temp4 = imod_flr < idx_t > ((t + 1), 2);
      expr_temp1->write_elem (expr_temp3,
	{
	(t + 1), x, y, z}, step_temp4);
    }				// calc_scalar.

    // Calculate a nano-block of vectors bounded by 'norm_nb_idxs'.
    // Each vector calculates 'x=1 * y=4 * z=1' point(s).
    // Indices must be rank-relative (not global).
    // Indices must be normalized, i.e., already divided by VLEN_*.
    // SIMD calculations use 9 vector block(s) read from 17 aligned
    // vector-block(s).
    // There are approximately 32 FP operation(s) per inner-loop iteration.
    static void calc_vectors (stencil_test_3d_core_t * core_data,
      int core_idx, int block_thread_idx, int thread_limit,
      ScanIndices & norm_nb_idxs, bit_mask_t write_mask)
    {
      if (write_mask == 0)
	return;
      FORCE_INLINE_RECURSIVE
      {
	assert (core_data);
	assert (core_data->_thread_core_list.get ());
	auto & thread_core_data = core_data->_thread_core_list[core_idx];
	const Indices & idxs = norm_nb_idxs.start;

	// Extract index for the step dim.
	idx_t t = idxs[0];

	// //// Loop-invariant values.

	// Pointer to core of var 'A'.
	auto *__restrict A_core_temp1 = core_data->var_A_core_p.get ();

	// Step index for var 'A'.
	const auto A_step_idx_temp2 = imod_flr < idx_t > ((t + 1), 2);

	// Stride for var 'A' in dim 'x'.
	// Size of inner-dim 'y' is not known at compile-time.
	// Size of inner-dim 'z' is not known at compile-time.
	const idx_t A_x_stride_temp4 = A_core_temp1->_vec_strides[1];

	// Index offset for var 'A' in dim 'x'.
	// Local offset is zero.
	constexpr idx_t A_x_ofs_temp5 = idx_t (0);
	host_assert (A_core_temp1->_local_offsets[1] == A_x_ofs_temp5);

	// Stride for var 'A' in dim 'y'.
	// Size of inner-dim 'z' is not known at compile-time.
	const idx_t A_y_stride_temp6 = A_core_temp1->_vec_strides[2];

	// Index offset for var 'A' in dim 'y'.
	// Local offset is zero.
	constexpr idx_t A_y_ofs_temp7 = idx_t (0);
	host_assert (A_core_temp1->_local_offsets[2] == A_y_ofs_temp7);

	// Stride for var 'A' in dim 'z'.
	constexpr idx_t A_z_stride_temp8 = 1;
	host_assert (A_core_temp1->_vec_strides[3] == A_z_stride_temp8);

	// Index offset for var 'A' in dim 'z'.
	// Local offset is zero.
	constexpr idx_t A_z_ofs_temp9 = idx_t (0);
	host_assert (A_core_temp1->_local_offsets[3] == A_z_ofs_temp9);

	// Offset from base ptr to 0th position in var 'A'.
	const idx_t A_ptr_ofs_temp3 =
	  idx_t (0) - (A_x_ofs_temp5 * A_x_stride_temp4) -
	  (A_y_ofs_temp7 * A_y_stride_temp6) -
	  (A_z_ofs_temp9 * A_z_stride_temp8);

	// Create var-base pointer at A((t + 1), A_x_ofs_temp5,
	// A_y_ofs_temp7, A_z_ofs_temp9).
	auto *A_var_base_ptr_temp10 =
	  A_core_temp1->get_vec_ptr_norm ({ (t + 1), A_x_ofs_temp5,
	    A_y_ofs_temp7, A_z_ofs_temp9
	  }, A_step_idx_temp2, false);

	// Step index for var 'A'.
	const auto A_step_idx_temp11 = imod_flr < idx_t > (t, 2);

	// Create var-base pointer at A(t, A_x_ofs_temp5, A_y_ofs_temp7,
	// A_z_ofs_temp9).
	auto *A_var_base_ptr_temp12 =
	  A_core_temp1->get_vec_ptr_norm ({ t, A_x_ofs_temp5, A_y_ofs_temp7,
	    A_z_ofs_temp9
	  }, A_step_idx_temp11, false);

	// Rank data.
	const idx_t rank_domain_offset_x =
	  core_data->_common_core._rank_domain_offsets[0];
	const idx_t rank_domain_offset_y =
	  core_data->_common_core._rank_domain_offsets[1];
	const idx_t rank_domain_offset_z =
	  core_data->_common_core._rank_domain_offsets[2];

	// Nano loops.


	// Start Nano loop(s).

	/* 
	 * Var-scanning code.
	 * Generated automatically from the following pseudo-code:
	 *
	 * serpentine loop(1,2,3) { }
	 *
	 */




	// Enable part 0 by defining the above macro.

	// The following macros must be re-defined for each generated
	// loop-nest.
	// Define NANO_BLOCK_LOOP_INDICES to initialize loop from a
	// ScanIndices
	// struct with that name.

	// Any element of the struct may be overridden by defining the
	// corresponding 
	// macro.
	{

	  // Create input vars for dim 1.
	  const idx_t nano_block_begin_1 = norm_nb_idxs.begin[1];
	  const idx_t nano_block_end_1 = norm_nb_idxs.end[1];
	  const idx_t nano_block_stride_1 = norm_nb_idxs.stride[1];

	  // Create input vars for dim 2.
	  const idx_t nano_block_begin_2 = norm_nb_idxs.begin[2];
	  const idx_t nano_block_end_2 = norm_nb_idxs.end[2];
	  const idx_t nano_block_stride_2 = norm_nb_idxs.stride[2];

	  // Create input vars for dim 3.
	  const idx_t nano_block_begin_3 = norm_nb_idxs.begin[3];
	  const idx_t nano_block_end_3 = norm_nb_idxs.end[3];
	  const idx_t nano_block_stride_3 = norm_nb_idxs.stride[3];

	  // ** Begin scan over dimensions 1, 2, 3. **

	  // Number of iterations to get from nano_block_begin_1 to (but not
	  // including) nano_block_end_1, striding by nano_block_stride_1.
	  // This value 
	  // is rounded up because the last iteration may cover fewer than
	  // nano_block_stride_1 strides.
	  const idx_t nano_block_num_iters_1 =
	    yask::ceil_idiv_flr (nano_block_end_1 - nano_block_begin_1,
	    nano_block_stride_1);

	  // Number of iterations to get from nano_block_begin_2 to (but not
	  // including) nano_block_end_2, striding by nano_block_stride_2.
	  // This value 
	  // is rounded up because the last iteration may cover fewer than
	  // nano_block_stride_2 strides.
	  const idx_t nano_block_num_iters_2 =
	    yask::ceil_idiv_flr (nano_block_end_2 - nano_block_begin_2,
	    nano_block_stride_2);

	  // Number of iterations to get from nano_block_begin_3 to (but not
	  // including) nano_block_end_3, striding by nano_block_stride_3.
	  // This value 
	  // is rounded up because the last iteration may cover fewer than
	  // nano_block_stride_3 strides.
	  const idx_t nano_block_num_iters_3 =
	    yask::ceil_idiv_flr (nano_block_end_3 - nano_block_begin_3,
	    nano_block_stride_3);

	  // Number of iterations in dimensions 1, 2, 3
	  const idx_t nano_block_num_iters_1_2_3 =
	    nano_block_num_iters_1 * nano_block_num_iters_2 *
	    nano_block_num_iters_3;

	  // Number of iterations in dimensions 2, 3
	  const idx_t nano_block_num_iters_2_3 =
	    nano_block_num_iters_2 * nano_block_num_iters_3;
	  for (idx_t nano_block_loop_index_1_2_3 = 0;
	    nano_block_loop_index_1_2_3 < nano_block_num_iters_1_2_3;
	    nano_block_loop_index_1_2_3++)
	    {
	      {

		// Zero-based, unit-stride index for dimension 1.
		idx_t nano_block_index_1 =
		  nano_block_loop_index_1_2_3 / nano_block_num_iters_2_3;

		// Zero-based, unit-stride index for dimension 2.
		idx_t nano_block_index_2 =
		  (nano_block_loop_index_1_2_3 / nano_block_num_iters_3) %
		  nano_block_num_iters_2;

		// Reverse direction of nano_block_index_2 after every
		// iteration of
		// nano_block_index_1 for 'serpentine' path.
		if ((nano_block_index_1 & 1) == 1)
		  nano_block_index_2 =
		    nano_block_num_iters_2 - nano_block_index_2 - 1;

		// Zero-based, unit-stride index for dimension 3.
		idx_t nano_block_index_3 =
		  (nano_block_loop_index_1_2_3) % nano_block_num_iters_3;

		// Reverse direction of nano_block_index_3 after every
		// iteration of
		// nano_block_index_2 for 'serpentine' path.
		if ((nano_block_index_2 & 1) == 1)
		  nano_block_index_3 =
		    nano_block_num_iters_3 - nano_block_index_3 - 1;

		// This value of nano_block_index_1 covers dimension 1 from
		// nano_block_start_1 to (but not including)
		// nano_block_stop_1.
		idx_t nano_block_start_1 =
		  nano_block_begin_1 +
		  (nano_block_index_1 * nano_block_stride_1);
		idx_t nano_block_stop_1 =
		  std::min (nano_block_begin_1 + ((nano_block_index_1 +
		      1) * nano_block_stride_1), nano_block_end_1);

		// This value of nano_block_index_2 covers dimension 2 from
		// nano_block_start_2 to (but not including)
		// nano_block_stop_2.
		idx_t nano_block_start_2 =
		  nano_block_begin_2 +
		  (nano_block_index_2 * nano_block_stride_2);
		idx_t nano_block_stop_2 =
		  std::min (nano_block_begin_2 + ((nano_block_index_2 +
		      1) * nano_block_stride_2), nano_block_end_2);

		// This value of nano_block_index_3 covers dimension 3 from
		// nano_block_start_3 to (but not including)
		// nano_block_stop_3.
		idx_t nano_block_start_3 =
		  nano_block_begin_3 +
		  (nano_block_index_3 * nano_block_stride_3);
		idx_t nano_block_stop_3 =
		  std::min (nano_block_begin_3 + ((nano_block_index_3 +
		      1) * nano_block_stride_3), nano_block_end_3);

		// Indices for loop body.
		// End of generated var-scanning code.

		// Pico loops inside nano loops.
		// Use macros to get values directly from nano loops.




		// Start Pico outer-loop(s).

		/* 
		 * Var-scanning code.
		 * Generated automatically from the following pseudo-code:
		 *
		 * nested loop(1,2) { loop(3) { } }
		 *
		 */




		// Enable part 0 by defining the above macro.

		// The following macros must be re-defined for each generated 
		// loop-nest.
		// Define PICO_BLOCK_LOOP_INDICES to initialize loop from a
		// ScanIndices
		// struct with that name.

		// Any element of the struct may be overridden by defining
		// the corresponding 
		// macro.
		{

		  // Create input vars for dim 1.
		  const idx_t pico_block_begin_1 =
		    YCAT (nano_block_start_, 1);
		  const idx_t pico_block_end_1 = YCAT (nano_block_stop_, 1);
		  const idx_t pico_block_stride_1 = idx_t (1);

		  // Create input vars for dim 2.
		  const idx_t pico_block_begin_2 =
		    YCAT (nano_block_start_, 2);
		  const idx_t pico_block_end_2 = YCAT (nano_block_stop_, 2);
		  const idx_t pico_block_stride_2 = idx_t (1);

		  // Create input vars for dim 3.
		  const idx_t pico_block_begin_3 =
		    YCAT (nano_block_start_, 3);
		  const idx_t pico_block_end_3 = YCAT (nano_block_stop_, 3);
		  const idx_t pico_block_stride_3 = idx_t (1);

		  // ** Begin scan over dimensions 1, 2. **

		  // Number of iterations to get from pico_block_begin_1 to
		  // (but not
		  // including) pico_block_end_1, striding by
		  // pico_block_stride_1. This value 
		  // is rounded up because the last iteration may cover fewer 
		  // than
		  // pico_block_stride_1 strides.
		  const idx_t pico_block_num_iters_1 =
		    yask::ceil_idiv_flr (pico_block_end_1 -
		    pico_block_begin_1,
		    pico_block_stride_1);

		  // Number of iterations to get from pico_block_begin_2 to
		  // (but not
		  // including) pico_block_end_2, striding by
		  // pico_block_stride_2. This value 
		  // is rounded up because the last iteration may cover fewer 
		  // than
		  // pico_block_stride_2 strides.
		  const idx_t pico_block_num_iters_2 =
		    yask::ceil_idiv_flr (pico_block_end_2 -
		    pico_block_begin_2,
		    pico_block_stride_2);

		  // Number of iterations in dimensions 1, 2
		  const idx_t pico_block_num_iters_1_2 =
		    pico_block_num_iters_1 * pico_block_num_iters_2;
		  for (idx_t pico_block_index_1 = 0;
		    pico_block_index_1 < pico_block_num_iters_1;
		    pico_block_index_1++)
		    for (idx_t pico_block_index_2 = 0;
		      pico_block_index_2 < pico_block_num_iters_2;
		      pico_block_index_2++)
		      {
			{

			  // This value of pico_block_index_1 covers
			  // dimension 1 from
			  // pico_block_start_1 to (but not including)
			  // pico_block_stop_1.
			  idx_t pico_block_start_1 =
			    pico_block_begin_1 +
			    (pico_block_index_1 * pico_block_stride_1);
			  idx_t pico_block_stop_1 =
			    std::min (pico_block_begin_1 +
			    ((pico_block_index_1 + 1) * pico_block_stride_1),
			    pico_block_end_1);

			  // This value of pico_block_index_2 covers
			  // dimension 2 from
			  // pico_block_start_2 to (but not including)
			  // pico_block_stop_2.
			  idx_t pico_block_start_2 =
			    pico_block_begin_2 +
			    (pico_block_index_2 * pico_block_stride_2);
			  idx_t pico_block_stop_2 =
			    std::min (pico_block_begin_2 +
			    ((pico_block_index_2 + 1) * pico_block_stride_2),
			    pico_block_end_2);
			  // End of generated var-scanning code.

			  // Extract index for each domain dim.
			  idx_t x = pico_block_start_1;
			  idx_t y = pico_block_start_2;
			  idx_t z = pico_block_begin_3;

			  // Element indices derived from vector indices
			  // (only used for
			  // non-vectorized vars).
			  idx_t x_local_elem = x * VLEN_X;
			  idx_t x_global_elem =
			    rank_domain_offset_x + x_local_elem;
			  idx_t y_local_elem = y * VLEN_Y;
			  idx_t y_global_elem =
			    rank_domain_offset_y + y_local_elem;
			  idx_t z_local_elem = z * VLEN_Z;
			  idx_t z_global_elem =
			    rank_domain_offset_z + z_local_elem;

			  // Set up for inner loop.

			  // Pointer to A((t + 1), x, y, z) in loop
			  auto *A_inner_loop_ptr_temp13 =
			    A_var_base_ptr_temp10 + (A_ptr_ofs_temp3) +
			    ((x) * (A_x_stride_temp4)) +
			    ((y) * (A_y_stride_temp6)) +
			    ((z) * (A_z_stride_temp8));

			  // Pointer to A(t, x, y, z) in loop
			  auto *A_inner_loop_ptr_temp14 =
			    A_var_base_ptr_temp12 + (A_ptr_ofs_temp3) +
			    ((x) * (A_x_stride_temp4)) +
			    ((y) * (A_y_stride_temp6)) +
			    ((z) * (A_z_stride_temp8));

			  // Buffer for A(t, (x + 4), (y + 4), z) with z
			  // vector offsets in
			  // [-4...2]
			  real_vec_t A_buf_temp15[7];
			  {

			    // Read aligned vector at A(t, (x + 4), (y + 4),
			    // (z - 4)).
			    auto *vec_ptr_temp17 =
			      A_inner_loop_ptr_temp14 +
			      (((4) * (A_x_stride_temp4)) +
			      ((+(4 / VLEN_Y)) * (A_y_stride_temp6)) +
			      ((-4) * (A_z_stride_temp8)));
			    host_assert (vec_ptr_temp17 ==
			      A_core_temp1->get_vec_ptr_norm (
				{
				t, (x + 4), (y + (4 / VLEN_Y)), (z - 4)}
				, A_step_idx_temp11));
			    real_vec_t vec_temp16;
			    vec_temp16.load_from (vec_ptr_temp17);
			    A_buf_temp15[0] = vec_temp16;

			    // Read aligned vector at A(t, (x + 4), (y + 4),
			    // (z - 3)).
			    auto *vec_ptr_temp19 =
			      A_inner_loop_ptr_temp14 +
			      (((4) * (A_x_stride_temp4)) +
			      ((+(4 / VLEN_Y)) * (A_y_stride_temp6)) +
			      ((-3) * (A_z_stride_temp8)));
			    host_assert (vec_ptr_temp19 ==
			      A_core_temp1->get_vec_ptr_norm (
				{
				t, (x + 4), (y + (4 / VLEN_Y)), (z - 3)}
				, A_step_idx_temp11));
			    real_vec_t vec_temp18;
			    vec_temp18.load_from (vec_ptr_temp19);
			    A_buf_temp15[1] = vec_temp18;

			    // Read aligned vector at A(t, (x + 4), (y + 4),
			    // (z - 2)).
			    auto *vec_ptr_temp21 =
			      A_inner_loop_ptr_temp14 +
			      (((4) * (A_x_stride_temp4)) +
			      ((+(4 / VLEN_Y)) * (A_y_stride_temp6)) +
			      ((-2) * (A_z_stride_temp8)));
			    host_assert (vec_ptr_temp21 ==
			      A_core_temp1->get_vec_ptr_norm (
				{
				t, (x + 4), (y + (4 / VLEN_Y)), (z - 2)}
				, A_step_idx_temp11));
			    real_vec_t vec_temp20;
			    vec_temp20.load_from (vec_ptr_temp21);
			    A_buf_temp15[2] = vec_temp20;

			    // Read aligned vector at A(t, (x + 4), (y + 4),
			    // (z - 1)).
			    auto *vec_ptr_temp23 =
			      A_inner_loop_ptr_temp14 +
			      (((4) * (A_x_stride_temp4)) +
			      ((+(4 / VLEN_Y)) * (A_y_stride_temp6)) +
			      ((-1) * (A_z_stride_temp8)));
			    host_assert (vec_ptr_temp23 ==
			      A_core_temp1->get_vec_ptr_norm (
				{
				t, (x + 4), (y + (4 / VLEN_Y)), (z - 1)}
				, A_step_idx_temp11));
			    real_vec_t vec_temp22;
			    vec_temp22.load_from (vec_ptr_temp23);
			    A_buf_temp15[3] = vec_temp22;

			    // Read aligned vector at A(t, (x + 4), (y + 4),
			    // z).
			    auto *vec_ptr_temp25 =
			      A_inner_loop_ptr_temp14 +
			      (((4) * (A_x_stride_temp4)) +
			      ((+(4 / VLEN_Y)) * (A_y_stride_temp6)));
			    host_assert (vec_ptr_temp25 ==
			      A_core_temp1->get_vec_ptr_norm (
				{
				t, (x + 4), (y + (4 / VLEN_Y)), z}
				, A_step_idx_temp11));
			    real_vec_t vec_temp24;
			    vec_temp24.load_from (vec_ptr_temp25);
			    A_buf_temp15[4] = vec_temp24;

			    // Read aligned vector at A(t, (x + 4), (y + 4),
			    // (z + 1)).
			    auto *vec_ptr_temp27 =
			      A_inner_loop_ptr_temp14 +
			      (((4) * (A_x_stride_temp4)) +
			      ((+(4 / VLEN_Y)) * (A_y_stride_temp6)) +
			      ((1) * (A_z_stride_temp8)));
			    host_assert (vec_ptr_temp27 ==
			      A_core_temp1->get_vec_ptr_norm (
				{
				t, (x + 4), (y + (4 / VLEN_Y)), (z + 1)}
				, A_step_idx_temp11));
			    real_vec_t vec_temp26;
			    vec_temp26.load_from (vec_ptr_temp27);
			    A_buf_temp15[5] = vec_temp26;

			    // Read aligned vector at A(t, (x + 4), (y + 4),
			    // (z + 2)).
			    auto *vec_ptr_temp29 =
			      A_inner_loop_ptr_temp14 +
			      (((4) * (A_x_stride_temp4)) +
			      ((+(4 / VLEN_Y)) * (A_y_stride_temp6)) +
			      ((2) * (A_z_stride_temp8)));
			    host_assert (vec_ptr_temp29 ==
			      A_core_temp1->get_vec_ptr_norm (
				{
				t, (x + 4), (y + (4 / VLEN_Y)), (z + 2)}
				, A_step_idx_temp11));
			    real_vec_t vec_temp28;
			    vec_temp28.load_from (vec_ptr_temp29);
			    A_buf_temp15[6] = vec_temp28;
			  }	// Setting A_buf_temp15

			  // Buffer for A(t, (x + 4), (y + 8), z) with z
			  // vector offsets in
			  // [-4...2]
			  real_vec_t A_buf_temp30[7];
			  {

			    // Read aligned vector at A(t, (x + 4), (y + 8),
			    // (z - 4)).
			    auto *vec_ptr_temp32 =
			      A_inner_loop_ptr_temp14 +
			      (((4) * (A_x_stride_temp4)) +
			      ((+(8 / VLEN_Y)) * (A_y_stride_temp6)) +
			      ((-4) * (A_z_stride_temp8)));
			    host_assert (vec_ptr_temp32 ==
			      A_core_temp1->get_vec_ptr_norm (
				{
				t, (x + 4), (y + (8 / VLEN_Y)), (z - 4)}
				, A_step_idx_temp11));
			    real_vec_t vec_temp31;
			    vec_temp31.load_from (vec_ptr_temp32);
			    A_buf_temp30[0] = vec_temp31;

			    // Read aligned vector at A(t, (x + 4), (y + 8),
			    // (z - 3)).
			    auto *vec_ptr_temp34 =
			      A_inner_loop_ptr_temp14 +
			      (((4) * (A_x_stride_temp4)) +
			      ((+(8 / VLEN_Y)) * (A_y_stride_temp6)) +
			      ((-3) * (A_z_stride_temp8)));
			    host_assert (vec_ptr_temp34 ==
			      A_core_temp1->get_vec_ptr_norm (
				{
				t, (x + 4), (y + (8 / VLEN_Y)), (z - 3)}
				, A_step_idx_temp11));
			    real_vec_t vec_temp33;
			    vec_temp33.load_from (vec_ptr_temp34);
			    A_buf_temp30[1] = vec_temp33;

			    // Read aligned vector at A(t, (x + 4), (y + 8),
			    // (z - 2)).
			    auto *vec_ptr_temp36 =
			      A_inner_loop_ptr_temp14 +
			      (((4) * (A_x_stride_temp4)) +
			      ((+(8 / VLEN_Y)) * (A_y_stride_temp6)) +
			      ((-2) * (A_z_stride_temp8)));
			    host_assert (vec_ptr_temp36 ==
			      A_core_temp1->get_vec_ptr_norm (
				{
				t, (x + 4), (y + (8 / VLEN_Y)), (z - 2)}
				, A_step_idx_temp11));
			    real_vec_t vec_temp35;
			    vec_temp35.load_from (vec_ptr_temp36);
			    A_buf_temp30[2] = vec_temp35;

			    // Read aligned vector at A(t, (x + 4), (y + 8),
			    // (z - 1)).
			    auto *vec_ptr_temp38 =
			      A_inner_loop_ptr_temp14 +
			      (((4) * (A_x_stride_temp4)) +
			      ((+(8 / VLEN_Y)) * (A_y_stride_temp6)) +
			      ((-1) * (A_z_stride_temp8)));
			    host_assert (vec_ptr_temp38 ==
			      A_core_temp1->get_vec_ptr_norm (
				{
				t, (x + 4), (y + (8 / VLEN_Y)), (z - 1)}
				, A_step_idx_temp11));
			    real_vec_t vec_temp37;
			    vec_temp37.load_from (vec_ptr_temp38);
			    A_buf_temp30[3] = vec_temp37;

			    // Read aligned vector at A(t, (x + 4), (y + 8),
			    // z).
			    auto *vec_ptr_temp40 =
			      A_inner_loop_ptr_temp14 +
			      (((4) * (A_x_stride_temp4)) +
			      ((+(8 / VLEN_Y)) * (A_y_stride_temp6)));
			    host_assert (vec_ptr_temp40 ==
			      A_core_temp1->get_vec_ptr_norm (
				{
				t, (x + 4), (y + (8 / VLEN_Y)), z}
				, A_step_idx_temp11));
			    real_vec_t vec_temp39;
			    vec_temp39.load_from (vec_ptr_temp40);
			    A_buf_temp30[4] = vec_temp39;

			    // Read aligned vector at A(t, (x + 4), (y + 8),
			    // (z + 1)).
			    auto *vec_ptr_temp42 =
			      A_inner_loop_ptr_temp14 +
			      (((4) * (A_x_stride_temp4)) +
			      ((+(8 / VLEN_Y)) * (A_y_stride_temp6)) +
			      ((1) * (A_z_stride_temp8)));
			    host_assert (vec_ptr_temp42 ==
			      A_core_temp1->get_vec_ptr_norm (
				{
				t, (x + 4), (y + (8 / VLEN_Y)), (z + 1)}
				, A_step_idx_temp11));
			    real_vec_t vec_temp41;
			    vec_temp41.load_from (vec_ptr_temp42);
			    A_buf_temp30[5] = vec_temp41;

			    // Read aligned vector at A(t, (x + 4), (y + 8),
			    // (z + 2)).
			    auto *vec_ptr_temp44 =
			      A_inner_loop_ptr_temp14 +
			      (((4) * (A_x_stride_temp4)) +
			      ((+(8 / VLEN_Y)) * (A_y_stride_temp6)) +
			      ((2) * (A_z_stride_temp8)));
			    host_assert (vec_ptr_temp44 ==
			      A_core_temp1->get_vec_ptr_norm (
				{
				t, (x + 4), (y + (8 / VLEN_Y)), (z + 2)}
				, A_step_idx_temp11));
			    real_vec_t vec_temp43;
			    vec_temp43.load_from (vec_ptr_temp44);
			    A_buf_temp30[6] = vec_temp43;
			  }	// Setting A_buf_temp30

			  // Buffer for A(t, (x + 4), (y - 4), z) with z
			  // vector offsets in
			  // [-4...2]
			  real_vec_t A_buf_temp45[7];
			  {

			    // Read aligned vector at A(t, (x + 4), (y - 4),
			    // (z - 4)).
			    auto *vec_ptr_temp47 =
			      A_inner_loop_ptr_temp14 +
			      (((4) * (A_x_stride_temp4)) +
			      ((-(4 / VLEN_Y)) * (A_y_stride_temp6)) +
			      ((-4) * (A_z_stride_temp8)));
			    host_assert (vec_ptr_temp47 ==
			      A_core_temp1->get_vec_ptr_norm (
				{
				t, (x + 4), (y - (4 / VLEN_Y)), (z - 4)}
				, A_step_idx_temp11));
			    real_vec_t vec_temp46;
			    vec_temp46.load_from (vec_ptr_temp47);
			    A_buf_temp45[0] = vec_temp46;

			    // Read aligned vector at A(t, (x + 4), (y - 4),
			    // (z - 3)).
			    auto *vec_ptr_temp49 =
			      A_inner_loop_ptr_temp14 +
			      (((4) * (A_x_stride_temp4)) +
			      ((-(4 / VLEN_Y)) * (A_y_stride_temp6)) +
			      ((-3) * (A_z_stride_temp8)));
			    host_assert (vec_ptr_temp49 ==
			      A_core_temp1->get_vec_ptr_norm (
				{
				t, (x + 4), (y - (4 / VLEN_Y)), (z - 3)}
				, A_step_idx_temp11));
			    real_vec_t vec_temp48;
			    vec_temp48.load_from (vec_ptr_temp49);
			    A_buf_temp45[1] = vec_temp48;

			    // Read aligned vector at A(t, (x + 4), (y - 4),
			    // (z - 2)).
			    auto *vec_ptr_temp51 =
			      A_inner_loop_ptr_temp14 +
			      (((4) * (A_x_stride_temp4)) +
			      ((-(4 / VLEN_Y)) * (A_y_stride_temp6)) +
			      ((-2) * (A_z_stride_temp8)));
			    host_assert (vec_ptr_temp51 ==
			      A_core_temp1->get_vec_ptr_norm (
				{
				t, (x + 4), (y - (4 / VLEN_Y)), (z - 2)}
				, A_step_idx_temp11));
			    real_vec_t vec_temp50;
			    vec_temp50.load_from (vec_ptr_temp51);
			    A_buf_temp45[2] = vec_temp50;

			    // Read aligned vector at A(t, (x + 4), (y - 4),
			    // (z - 1)).
			    auto *vec_ptr_temp53 =
			      A_inner_loop_ptr_temp14 +
			      (((4) * (A_x_stride_temp4)) +
			      ((-(4 / VLEN_Y)) * (A_y_stride_temp6)) +
			      ((-1) * (A_z_stride_temp8)));
			    host_assert (vec_ptr_temp53 ==
			      A_core_temp1->get_vec_ptr_norm (
				{
				t, (x + 4), (y - (4 / VLEN_Y)), (z - 1)}
				, A_step_idx_temp11));
			    real_vec_t vec_temp52;
			    vec_temp52.load_from (vec_ptr_temp53);
			    A_buf_temp45[3] = vec_temp52;

			    // Read aligned vector at A(t, (x + 4), (y - 4),
			    // z).
			    auto *vec_ptr_temp55 =
			      A_inner_loop_ptr_temp14 +
			      (((4) * (A_x_stride_temp4)) +
			      ((-(4 / VLEN_Y)) * (A_y_stride_temp6)));
			    host_assert (vec_ptr_temp55 ==
			      A_core_temp1->get_vec_ptr_norm (
				{
				t, (x + 4), (y - (4 / VLEN_Y)), z}
				, A_step_idx_temp11));
			    real_vec_t vec_temp54;
			    vec_temp54.load_from (vec_ptr_temp55);
			    A_buf_temp45[4] = vec_temp54;

			    // Read aligned vector at A(t, (x + 4), (y - 4),
			    // (z + 1)).
			    auto *vec_ptr_temp57 =
			      A_inner_loop_ptr_temp14 +
			      (((4) * (A_x_stride_temp4)) +
			      ((-(4 / VLEN_Y)) * (A_y_stride_temp6)) +
			      ((1) * (A_z_stride_temp8)));
			    host_assert (vec_ptr_temp57 ==
			      A_core_temp1->get_vec_ptr_norm (
				{
				t, (x + 4), (y - (4 / VLEN_Y)), (z + 1)}
				, A_step_idx_temp11));
			    real_vec_t vec_temp56;
			    vec_temp56.load_from (vec_ptr_temp57);
			    A_buf_temp45[5] = vec_temp56;

			    // Read aligned vector at A(t, (x + 4), (y - 4),
			    // (z + 2)).
			    auto *vec_ptr_temp59 =
			      A_inner_loop_ptr_temp14 +
			      (((4) * (A_x_stride_temp4)) +
			      ((-(4 / VLEN_Y)) * (A_y_stride_temp6)) +
			      ((2) * (A_z_stride_temp8)));
			    host_assert (vec_ptr_temp59 ==
			      A_core_temp1->get_vec_ptr_norm (
				{
				t, (x + 4), (y - (4 / VLEN_Y)), (z + 2)}
				, A_step_idx_temp11));
			    real_vec_t vec_temp58;
			    vec_temp58.load_from (vec_ptr_temp59);
			    A_buf_temp45[6] = vec_temp58;
			  }	// Setting A_buf_temp45

			  // Buffer for A(t, (x + 4), (y - 8), z) with z
			  // vector offsets in
			  // [-4...2]
			  real_vec_t A_buf_temp60[7];
			  {

			    // Read aligned vector at A(t, (x + 4), (y - 8),
			    // (z - 4)).
			    auto *vec_ptr_temp62 =
			      A_inner_loop_ptr_temp14 +
			      (((4) * (A_x_stride_temp4)) +
			      ((-(8 / VLEN_Y)) * (A_y_stride_temp6)) +
			      ((-4) * (A_z_stride_temp8)));
			    host_assert (vec_ptr_temp62 ==
			      A_core_temp1->get_vec_ptr_norm (
				{
				t, (x + 4), (y - (8 / VLEN_Y)), (z - 4)}
				, A_step_idx_temp11));
			    real_vec_t vec_temp61;
			    vec_temp61.load_from (vec_ptr_temp62);
			    A_buf_temp60[0] = vec_temp61;

			    // Read aligned vector at A(t, (x + 4), (y - 8),
			    // (z - 3)).
			    auto *vec_ptr_temp64 =
			      A_inner_loop_ptr_temp14 +
			      (((4) * (A_x_stride_temp4)) +
			      ((-(8 / VLEN_Y)) * (A_y_stride_temp6)) +
			      ((-3) * (A_z_stride_temp8)));
			    host_assert (vec_ptr_temp64 ==
			      A_core_temp1->get_vec_ptr_norm (
				{
				t, (x + 4), (y - (8 / VLEN_Y)), (z - 3)}
				, A_step_idx_temp11));
			    real_vec_t vec_temp63;
			    vec_temp63.load_from (vec_ptr_temp64);
			    A_buf_temp60[1] = vec_temp63;

			    // Read aligned vector at A(t, (x + 4), (y - 8),
			    // (z - 2)).
			    auto *vec_ptr_temp66 =
			      A_inner_loop_ptr_temp14 +
			      (((4) * (A_x_stride_temp4)) +
			      ((-(8 / VLEN_Y)) * (A_y_stride_temp6)) +
			      ((-2) * (A_z_stride_temp8)));
			    host_assert (vec_ptr_temp66 ==
			      A_core_temp1->get_vec_ptr_norm (
				{
				t, (x + 4), (y - (8 / VLEN_Y)), (z - 2)}
				, A_step_idx_temp11));
			    real_vec_t vec_temp65;
			    vec_temp65.load_from (vec_ptr_temp66);
			    A_buf_temp60[2] = vec_temp65;

			    // Read aligned vector at A(t, (x + 4), (y - 8),
			    // (z - 1)).
			    auto *vec_ptr_temp68 =
			      A_inner_loop_ptr_temp14 +
			      (((4) * (A_x_stride_temp4)) +
			      ((-(8 / VLEN_Y)) * (A_y_stride_temp6)) +
			      ((-1) * (A_z_stride_temp8)));
			    host_assert (vec_ptr_temp68 ==
			      A_core_temp1->get_vec_ptr_norm (
				{
				t, (x + 4), (y - (8 / VLEN_Y)), (z - 1)}
				, A_step_idx_temp11));
			    real_vec_t vec_temp67;
			    vec_temp67.load_from (vec_ptr_temp68);
			    A_buf_temp60[3] = vec_temp67;

			    // Read aligned vector at A(t, (x + 4), (y - 8),
			    // z).
			    auto *vec_ptr_temp70 =
			      A_inner_loop_ptr_temp14 +
			      (((4) * (A_x_stride_temp4)) +
			      ((-(8 / VLEN_Y)) * (A_y_stride_temp6)));
			    host_assert (vec_ptr_temp70 ==
			      A_core_temp1->get_vec_ptr_norm (
				{
				t, (x + 4), (y - (8 / VLEN_Y)), z}
				, A_step_idx_temp11));
			    real_vec_t vec_temp69;
			    vec_temp69.load_from (vec_ptr_temp70);
			    A_buf_temp60[4] = vec_temp69;

			    // Read aligned vector at A(t, (x + 4), (y - 8),
			    // (z + 1)).
			    auto *vec_ptr_temp72 =
			      A_inner_loop_ptr_temp14 +
			      (((4) * (A_x_stride_temp4)) +
			      ((-(8 / VLEN_Y)) * (A_y_stride_temp6)) +
			      ((1) * (A_z_stride_temp8)));
			    host_assert (vec_ptr_temp72 ==
			      A_core_temp1->get_vec_ptr_norm (
				{
				t, (x + 4), (y - (8 / VLEN_Y)), (z + 1)}
				, A_step_idx_temp11));
			    real_vec_t vec_temp71;
			    vec_temp71.load_from (vec_ptr_temp72);
			    A_buf_temp60[5] = vec_temp71;

			    // Read aligned vector at A(t, (x + 4), (y - 8),
			    // (z + 2)).
			    auto *vec_ptr_temp74 =
			      A_inner_loop_ptr_temp14 +
			      (((4) * (A_x_stride_temp4)) +
			      ((-(8 / VLEN_Y)) * (A_y_stride_temp6)) +
			      ((2) * (A_z_stride_temp8)));
			    host_assert (vec_ptr_temp74 ==
			      A_core_temp1->get_vec_ptr_norm (
				{
				t, (x + 4), (y - (8 / VLEN_Y)), (z + 2)}
				, A_step_idx_temp11));
			    real_vec_t vec_temp73;
			    vec_temp73.load_from (vec_ptr_temp74);
			    A_buf_temp60[6] = vec_temp73;
			  }	// Setting A_buf_temp60

			  // Buffer for A(t, (x - 2), (y + 4), z) with z
			  // vector offsets in
			  // [-4...2]
			  real_vec_t A_buf_temp75[7];
			  {

			    // Read aligned vector at A(t, (x - 2), (y + 4),
			    // (z - 4)).
			    auto *vec_ptr_temp77 =
			      A_inner_loop_ptr_temp14 +
			      (((-2) * (A_x_stride_temp4)) +
			      ((+(4 / VLEN_Y)) * (A_y_stride_temp6)) +
			      ((-4) * (A_z_stride_temp8)));
			    host_assert (vec_ptr_temp77 ==
			      A_core_temp1->get_vec_ptr_norm (
				{
				t, (x - 2), (y + (4 / VLEN_Y)), (z - 4)}
				, A_step_idx_temp11));
			    real_vec_t vec_temp76;
			    vec_temp76.load_from (vec_ptr_temp77);
			    A_buf_temp75[0] = vec_temp76;

			    // Read aligned vector at A(t, (x - 2), (y + 4),
			    // (z - 3)).
			    auto *vec_ptr_temp79 =
			      A_inner_loop_ptr_temp14 +
			      (((-2) * (A_x_stride_temp4)) +
			      ((+(4 / VLEN_Y)) * (A_y_stride_temp6)) +
			      ((-3) * (A_z_stride_temp8)));
			    host_assert (vec_ptr_temp79 ==
			      A_core_temp1->get_vec_ptr_norm (
				{
				t, (x - 2), (y + (4 / VLEN_Y)), (z - 3)}
				, A_step_idx_temp11));
			    real_vec_t vec_temp78;
			    vec_temp78.load_from (vec_ptr_temp79);
			    A_buf_temp75[1] = vec_temp78;

			    // Read aligned vector at A(t, (x - 2), (y + 4),
			    // (z - 2)).
			    auto *vec_ptr_temp81 =
			      A_inner_loop_ptr_temp14 +
			      (((-2) * (A_x_stride_temp4)) +
			      ((+(4 / VLEN_Y)) * (A_y_stride_temp6)) +
			      ((-2) * (A_z_stride_temp8)));
			    host_assert (vec_ptr_temp81 ==
			      A_core_temp1->get_vec_ptr_norm (
				{
				t, (x - 2), (y + (4 / VLEN_Y)), (z - 2)}
				, A_step_idx_temp11));
			    real_vec_t vec_temp80;
			    vec_temp80.load_from (vec_ptr_temp81);
			    A_buf_temp75[2] = vec_temp80;

			    // Read aligned vector at A(t, (x - 2), (y + 4),
			    // (z - 1)).
			    auto *vec_ptr_temp83 =
			      A_inner_loop_ptr_temp14 +
			      (((-2) * (A_x_stride_temp4)) +
			      ((+(4 / VLEN_Y)) * (A_y_stride_temp6)) +
			      ((-1) * (A_z_stride_temp8)));
			    host_assert (vec_ptr_temp83 ==
			      A_core_temp1->get_vec_ptr_norm (
				{
				t, (x - 2), (y + (4 / VLEN_Y)), (z - 1)}
				, A_step_idx_temp11));
			    real_vec_t vec_temp82;
			    vec_temp82.load_from (vec_ptr_temp83);
			    A_buf_temp75[3] = vec_temp82;

			    // Read aligned vector at A(t, (x - 2), (y + 4),
			    // z).
			    auto *vec_ptr_temp85 =
			      A_inner_loop_ptr_temp14 +
			      (((-2) * (A_x_stride_temp4)) +
			      ((+(4 / VLEN_Y)) * (A_y_stride_temp6)));
			    host_assert (vec_ptr_temp85 ==
			      A_core_temp1->get_vec_ptr_norm (
				{
				t, (x - 2), (y + (4 / VLEN_Y)), z}
				, A_step_idx_temp11));
			    real_vec_t vec_temp84;
			    vec_temp84.load_from (vec_ptr_temp85);
			    A_buf_temp75[4] = vec_temp84;

			    // Read aligned vector at A(t, (x - 2), (y + 4),
			    // (z + 1)).
			    auto *vec_ptr_temp87 =
			      A_inner_loop_ptr_temp14 +
			      (((-2) * (A_x_stride_temp4)) +
			      ((+(4 / VLEN_Y)) * (A_y_stride_temp6)) +
			      ((1) * (A_z_stride_temp8)));
			    host_assert (vec_ptr_temp87 ==
			      A_core_temp1->get_vec_ptr_norm (
				{
				t, (x - 2), (y + (4 / VLEN_Y)), (z + 1)}
				, A_step_idx_temp11));
			    real_vec_t vec_temp86;
			    vec_temp86.load_from (vec_ptr_temp87);
			    A_buf_temp75[5] = vec_temp86;

			    // Read aligned vector at A(t, (x - 2), (y + 4),
			    // (z + 2)).
			    auto *vec_ptr_temp89 =
			      A_inner_loop_ptr_temp14 +
			      (((-2) * (A_x_stride_temp4)) +
			      ((+(4 / VLEN_Y)) * (A_y_stride_temp6)) +
			      ((2) * (A_z_stride_temp8)));
			    host_assert (vec_ptr_temp89 ==
			      A_core_temp1->get_vec_ptr_norm (
				{
				t, (x - 2), (y + (4 / VLEN_Y)), (z + 2)}
				, A_step_idx_temp11));
			    real_vec_t vec_temp88;
			    vec_temp88.load_from (vec_ptr_temp89);
			    A_buf_temp75[6] = vec_temp88;
			  }	// Setting A_buf_temp75

			  // Buffer for A(t, (x - 2), (y + 8), z) with z
			  // vector offsets in
			  // [-4...2]
			  real_vec_t A_buf_temp90[7];
			  {

			    // Read aligned vector at A(t, (x - 2), (y + 8),
			    // (z - 4)).
			    auto *vec_ptr_temp92 =
			      A_inner_loop_ptr_temp14 +
			      (((-2) * (A_x_stride_temp4)) +
			      ((+(8 / VLEN_Y)) * (A_y_stride_temp6)) +
			      ((-4) * (A_z_stride_temp8)));
			    host_assert (vec_ptr_temp92 ==
			      A_core_temp1->get_vec_ptr_norm (
				{
				t, (x - 2), (y + (8 / VLEN_Y)), (z - 4)}
				, A_step_idx_temp11));
			    real_vec_t vec_temp91;
			    vec_temp91.load_from (vec_ptr_temp92);
			    A_buf_temp90[0] = vec_temp91;

			    // Read aligned vector at A(t, (x - 2), (y + 8),
			    // (z - 3)).
			    auto *vec_ptr_temp94 =
			      A_inner_loop_ptr_temp14 +
			      (((-2) * (A_x_stride_temp4)) +
			      ((+(8 / VLEN_Y)) * (A_y_stride_temp6)) +
			      ((-3) * (A_z_stride_temp8)));
			    host_assert (vec_ptr_temp94 ==
			      A_core_temp1->get_vec_ptr_norm (
				{
				t, (x - 2), (y + (8 / VLEN_Y)), (z - 3)}
				, A_step_idx_temp11));
			    real_vec_t vec_temp93;
			    vec_temp93.load_from (vec_ptr_temp94);
			    A_buf_temp90[1] = vec_temp93;

			    // Read aligned vector at A(t, (x - 2), (y + 8),
			    // (z - 2)).
			    auto *vec_ptr_temp96 =
			      A_inner_loop_ptr_temp14 +
			      (((-2) * (A_x_stride_temp4)) +
			      ((+(8 / VLEN_Y)) * (A_y_stride_temp6)) +
			      ((-2) * (A_z_stride_temp8)));
			    host_assert (vec_ptr_temp96 ==
			      A_core_temp1->get_vec_ptr_norm (
				{
				t, (x - 2), (y + (8 / VLEN_Y)), (z - 2)}
				, A_step_idx_temp11));
			    real_vec_t vec_temp95;
			    vec_temp95.load_from (vec_ptr_temp96);
			    A_buf_temp90[2] = vec_temp95;

			    // Read aligned vector at A(t, (x - 2), (y + 8),
			    // (z - 1)).
			    auto *vec_ptr_temp98 =
			      A_inner_loop_ptr_temp14 +
			      (((-2) * (A_x_stride_temp4)) +
			      ((+(8 / VLEN_Y)) * (A_y_stride_temp6)) +
			      ((-1) * (A_z_stride_temp8)));
			    host_assert (vec_ptr_temp98 ==
			      A_core_temp1->get_vec_ptr_norm (
				{
				t, (x - 2), (y + (8 / VLEN_Y)), (z - 1)}
				, A_step_idx_temp11));
			    real_vec_t vec_temp97;
			    vec_temp97.load_from (vec_ptr_temp98);
			    A_buf_temp90[3] = vec_temp97;

			    // Read aligned vector at A(t, (x - 2), (y + 8),
			    // z).
			    auto *vec_ptr_temp100 =
			      A_inner_loop_ptr_temp14 +
			      (((-2) * (A_x_stride_temp4)) +
			      ((+(8 / VLEN_Y)) * (A_y_stride_temp6)));
			    host_assert (vec_ptr_temp100 ==
			      A_core_temp1->get_vec_ptr_norm (
				{
				t, (x - 2), (y + (8 / VLEN_Y)), z}
				, A_step_idx_temp11));
			    real_vec_t vec_temp99;
			    vec_temp99.load_from (vec_ptr_temp100);
			    A_buf_temp90[4] = vec_temp99;

			    // Read aligned vector at A(t, (x - 2), (y + 8),
			    // (z + 1)).
			    auto *vec_ptr_temp102 =
			      A_inner_loop_ptr_temp14 +
			      (((-2) * (A_x_stride_temp4)) +
			      ((+(8 / VLEN_Y)) * (A_y_stride_temp6)) +
			      ((1) * (A_z_stride_temp8)));
			    host_assert (vec_ptr_temp102 ==
			      A_core_temp1->get_vec_ptr_norm (
				{
				t, (x - 2), (y + (8 / VLEN_Y)), (z + 1)}
				, A_step_idx_temp11));
			    real_vec_t vec_temp101;
			    vec_temp101.load_from (vec_ptr_temp102);
			    A_buf_temp90[5] = vec_temp101;

			    // Read aligned vector at A(t, (x - 2), (y + 8),
			    // (z + 2)).
			    auto *vec_ptr_temp104 =
			      A_inner_loop_ptr_temp14 +
			      (((-2) * (A_x_stride_temp4)) +
			      ((+(8 / VLEN_Y)) * (A_y_stride_temp6)) +
			      ((2) * (A_z_stride_temp8)));
			    host_assert (vec_ptr_temp104 ==
			      A_core_temp1->get_vec_ptr_norm (
				{
				t, (x - 2), (y + (8 / VLEN_Y)), (z + 2)}
				, A_step_idx_temp11));
			    real_vec_t vec_temp103;
			    vec_temp103.load_from (vec_ptr_temp104);
			    A_buf_temp90[6] = vec_temp103;
			  }	// Setting A_buf_temp90

			  // Buffer for A(t, (x - 2), (y - 4), z) with z
			  // vector offsets in
			  // [-4...2]
			  real_vec_t A_buf_temp105[7];
			  {

			    // Read aligned vector at A(t, (x - 2), (y - 4),
			    // (z - 4)).
			    auto *vec_ptr_temp107 =
			      A_inner_loop_ptr_temp14 +
			      (((-2) * (A_x_stride_temp4)) +
			      ((-(4 / VLEN_Y)) * (A_y_stride_temp6)) +
			      ((-4) * (A_z_stride_temp8)));
			    host_assert (vec_ptr_temp107 ==
			      A_core_temp1->get_vec_ptr_norm (
				{
				t, (x - 2), (y - (4 / VLEN_Y)), (z - 4)}
				, A_step_idx_temp11));
			    real_vec_t vec_temp106;
			    vec_temp106.load_from (vec_ptr_temp107);
			    A_buf_temp105[0] = vec_temp106;

			    // Read aligned vector at A(t, (x - 2), (y - 4),
			    // (z - 3)).
			    auto *vec_ptr_temp109 =
			      A_inner_loop_ptr_temp14 +
			      (((-2) * (A_x_stride_temp4)) +
			      ((-(4 / VLEN_Y)) * (A_y_stride_temp6)) +
			      ((-3) * (A_z_stride_temp8)));
			    host_assert (vec_ptr_temp109 ==
			      A_core_temp1->get_vec_ptr_norm (
				{
				t, (x - 2), (y - (4 / VLEN_Y)), (z - 3)}
				, A_step_idx_temp11));
			    real_vec_t vec_temp108;
			    vec_temp108.load_from (vec_ptr_temp109);
			    A_buf_temp105[1] = vec_temp108;

			    // Read aligned vector at A(t, (x - 2), (y - 4),
			    // (z - 2)).
			    auto *vec_ptr_temp111 =
			      A_inner_loop_ptr_temp14 +
			      (((-2) * (A_x_stride_temp4)) +
			      ((-(4 / VLEN_Y)) * (A_y_stride_temp6)) +
			      ((-2) * (A_z_stride_temp8)));
			    host_assert (vec_ptr_temp111 ==
			      A_core_temp1->get_vec_ptr_norm (
				{
				t, (x - 2), (y - (4 / VLEN_Y)), (z - 2)}
				, A_step_idx_temp11));
			    real_vec_t vec_temp110;
			    vec_temp110.load_from (vec_ptr_temp111);
			    A_buf_temp105[2] = vec_temp110;

			    // Read aligned vector at A(t, (x - 2), (y - 4),
			    // (z - 1)).
			    auto *vec_ptr_temp113 =
			      A_inner_loop_ptr_temp14 +
			      (((-2) * (A_x_stride_temp4)) +
			      ((-(4 / VLEN_Y)) * (A_y_stride_temp6)) +
			      ((-1) * (A_z_stride_temp8)));
			    host_assert (vec_ptr_temp113 ==
			      A_core_temp1->get_vec_ptr_norm (
				{
				t, (x - 2), (y - (4 / VLEN_Y)), (z - 1)}
				, A_step_idx_temp11));
			    real_vec_t vec_temp112;
			    vec_temp112.load_from (vec_ptr_temp113);
			    A_buf_temp105[3] = vec_temp112;

			    // Read aligned vector at A(t, (x - 2), (y - 4),
			    // z).
			    auto *vec_ptr_temp115 =
			      A_inner_loop_ptr_temp14 +
			      (((-2) * (A_x_stride_temp4)) +
			      ((-(4 / VLEN_Y)) * (A_y_stride_temp6)));
			    host_assert (vec_ptr_temp115 ==
			      A_core_temp1->get_vec_ptr_norm (
				{
				t, (x - 2), (y - (4 / VLEN_Y)), z}
				, A_step_idx_temp11));
			    real_vec_t vec_temp114;
			    vec_temp114.load_from (vec_ptr_temp115);
			    A_buf_temp105[4] = vec_temp114;

			    // Read aligned vector at A(t, (x - 2), (y - 4),
			    // (z + 1)).
			    auto *vec_ptr_temp117 =
			      A_inner_loop_ptr_temp14 +
			      (((-2) * (A_x_stride_temp4)) +
			      ((-(4 / VLEN_Y)) * (A_y_stride_temp6)) +
			      ((1) * (A_z_stride_temp8)));
			    host_assert (vec_ptr_temp117 ==
			      A_core_temp1->get_vec_ptr_norm (
				{
				t, (x - 2), (y - (4 / VLEN_Y)), (z + 1)}
				, A_step_idx_temp11));
			    real_vec_t vec_temp116;
			    vec_temp116.load_from (vec_ptr_temp117);
			    A_buf_temp105[5] = vec_temp116;

			    // Read aligned vector at A(t, (x - 2), (y - 4),
			    // (z + 2)).
			    auto *vec_ptr_temp119 =
			      A_inner_loop_ptr_temp14 +
			      (((-2) * (A_x_stride_temp4)) +
			      ((-(4 / VLEN_Y)) * (A_y_stride_temp6)) +
			      ((2) * (A_z_stride_temp8)));
			    host_assert (vec_ptr_temp119 ==
			      A_core_temp1->get_vec_ptr_norm (
				{
				t, (x - 2), (y - (4 / VLEN_Y)), (z + 2)}
				, A_step_idx_temp11));
			    real_vec_t vec_temp118;
			    vec_temp118.load_from (vec_ptr_temp119);
			    A_buf_temp105[6] = vec_temp118;
			  }	// Setting A_buf_temp105

			  // Buffer for A(t, (x - 2), (y - 8), z) with z
			  // vector offsets in
			  // [-4...2]
			  real_vec_t A_buf_temp120[7];
			  {

			    // Read aligned vector at A(t, (x - 2), (y - 8),
			    // (z - 4)).
			    auto *vec_ptr_temp122 =
			      A_inner_loop_ptr_temp14 +
			      (((-2) * (A_x_stride_temp4)) +
			      ((-(8 / VLEN_Y)) * (A_y_stride_temp6)) +
			      ((-4) * (A_z_stride_temp8)));
			    host_assert (vec_ptr_temp122 ==
			      A_core_temp1->get_vec_ptr_norm (
				{
				t, (x - 2), (y - (8 / VLEN_Y)), (z - 4)}
				, A_step_idx_temp11));
			    real_vec_t vec_temp121;
			    vec_temp121.load_from (vec_ptr_temp122);
			    A_buf_temp120[0] = vec_temp121;

			    // Read aligned vector at A(t, (x - 2), (y - 8),
			    // (z - 3)).
			    auto *vec_ptr_temp124 =
			      A_inner_loop_ptr_temp14 +
			      (((-2) * (A_x_stride_temp4)) +
			      ((-(8 / VLEN_Y)) * (A_y_stride_temp6)) +
			      ((-3) * (A_z_stride_temp8)));
			    host_assert (vec_ptr_temp124 ==
			      A_core_temp1->get_vec_ptr_norm (
				{
				t, (x - 2), (y - (8 / VLEN_Y)), (z - 3)}
				, A_step_idx_temp11));
			    real_vec_t vec_temp123;
			    vec_temp123.load_from (vec_ptr_temp124);
			    A_buf_temp120[1] = vec_temp123;

			    // Read aligned vector at A(t, (x - 2), (y - 8),
			    // (z - 2)).
			    auto *vec_ptr_temp126 =
			      A_inner_loop_ptr_temp14 +
			      (((-2) * (A_x_stride_temp4)) +
			      ((-(8 / VLEN_Y)) * (A_y_stride_temp6)) +
			      ((-2) * (A_z_stride_temp8)));
			    host_assert (vec_ptr_temp126 ==
			      A_core_temp1->get_vec_ptr_norm (
				{
				t, (x - 2), (y - (8 / VLEN_Y)), (z - 2)}
				, A_step_idx_temp11));
			    real_vec_t vec_temp125;
			    vec_temp125.load_from (vec_ptr_temp126);
			    A_buf_temp120[2] = vec_temp125;

			    // Read aligned vector at A(t, (x - 2), (y - 8),
			    // (z - 1)).
			    auto *vec_ptr_temp128 =
			      A_inner_loop_ptr_temp14 +
			      (((-2) * (A_x_stride_temp4)) +
			      ((-(8 / VLEN_Y)) * (A_y_stride_temp6)) +
			      ((-1) * (A_z_stride_temp8)));
			    host_assert (vec_ptr_temp128 ==
			      A_core_temp1->get_vec_ptr_norm (
				{
				t, (x - 2), (y - (8 / VLEN_Y)), (z - 1)}
				, A_step_idx_temp11));
			    real_vec_t vec_temp127;
			    vec_temp127.load_from (vec_ptr_temp128);
			    A_buf_temp120[3] = vec_temp127;

			    // Read aligned vector at A(t, (x - 2), (y - 8),
			    // z).
			    auto *vec_ptr_temp130 =
			      A_inner_loop_ptr_temp14 +
			      (((-2) * (A_x_stride_temp4)) +
			      ((-(8 / VLEN_Y)) * (A_y_stride_temp6)));
			    host_assert (vec_ptr_temp130 ==
			      A_core_temp1->get_vec_ptr_norm (
				{
				t, (x - 2), (y - (8 / VLEN_Y)), z}
				, A_step_idx_temp11));
			    real_vec_t vec_temp129;
			    vec_temp129.load_from (vec_ptr_temp130);
			    A_buf_temp120[4] = vec_temp129;

			    // Read aligned vector at A(t, (x - 2), (y - 8),
			    // (z + 1)).
			    auto *vec_ptr_temp132 =
			      A_inner_loop_ptr_temp14 +
			      (((-2) * (A_x_stride_temp4)) +
			      ((-(8 / VLEN_Y)) * (A_y_stride_temp6)) +
			      ((1) * (A_z_stride_temp8)));
			    host_assert (vec_ptr_temp132 ==
			      A_core_temp1->get_vec_ptr_norm (
				{
				t, (x - 2), (y - (8 / VLEN_Y)), (z + 1)}
				, A_step_idx_temp11));
			    real_vec_t vec_temp131;
			    vec_temp131.load_from (vec_ptr_temp132);
			    A_buf_temp120[5] = vec_temp131;

			    // Read aligned vector at A(t, (x - 2), (y - 8),
			    // (z + 2)).
			    auto *vec_ptr_temp134 =
			      A_inner_loop_ptr_temp14 +
			      (((-2) * (A_x_stride_temp4)) +
			      ((-(8 / VLEN_Y)) * (A_y_stride_temp6)) +
			      ((2) * (A_z_stride_temp8)));
			    host_assert (vec_ptr_temp134 ==
			      A_core_temp1->get_vec_ptr_norm (
				{
				t, (x - 2), (y - (8 / VLEN_Y)), (z + 2)}
				, A_step_idx_temp11));
			    real_vec_t vec_temp133;
			    vec_temp133.load_from (vec_ptr_temp134);
			    A_buf_temp120[6] = vec_temp133;
			  }	// Setting A_buf_temp120

			  // Start Pico inner-loop for dim 'z'.

			  /* 
			   * Var-scanning code.
			   * Generated automatically from the following pseudo-code:
			   *
			   * nested loop(1,2) { loop(3) { } }
			   *
			   */
			  // Enable part 1 by defining the above macro.

			  // ** Begin scan over dimension 3. **

			  // Number of iterations to get from
			  // pico_block_begin_3 to (but not
			  // including) pico_block_end_3, striding by
			  // pico_block_stride_3.
			  // This value is rounded up because the last
			  // iteration may cover
			  // fewer than pico_block_stride_3 strides.
			  const idx_t pico_block_num_iters_3 =
			    yask::ceil_idiv_flr (pico_block_end_3 -
			    pico_block_begin_3,
			    pico_block_stride_3);
			  for (idx_t pico_block_loop_index_3 = 0;
			    pico_block_loop_index_3 < pico_block_num_iters_3;
			    pico_block_loop_index_3++)
			    {
			      {

				// Zero-based, unit-stride index for
				// dimension 3.
				idx_t pico_block_index_3 =
				  pico_block_loop_index_3;

				// This value of pico_block_index_3 covers
				// dimension 3 from
				// pico_block_start_3 to (but not including)
				// pico_block_stop_3.
				idx_t pico_block_start_3 =
				  pico_block_begin_3 +
				  (pico_block_index_3 * pico_block_stride_3);
				idx_t pico_block_stop_3 =
				  std::min (pico_block_begin_3 +
				  ((pico_block_index_3 +
				      1) * pico_block_stride_3),
				  pico_block_end_3);

				// Indices for loop body.
				// End of generated var-scanning code.

				// Read aligned vector at A(t, x, y, z).
				host_assert (A_inner_loop_ptr_temp14 ==
				  A_core_temp1->get_vec_ptr_norm (
				    {
				    t, x, y, z}
				    , A_step_idx_temp11));
				real_vec_t vec_temp135;
				vec_temp135.
				  load_from (A_inner_loop_ptr_temp14);

				// Read aligned vector at A(t, (x - 2), (y -
				// 4), (z - 4)).
				real_vec_t vec_temp136 = A_buf_temp105[0];

				// Check consistency of buffer.
				{
				  auto *vec_ptr_temp137 =
				    A_inner_loop_ptr_temp14 +
				    (((-2) * (A_x_stride_temp4)) +
				    ((-(4 / VLEN_Y)) * (A_y_stride_temp6)) +
				    ((-4) * (A_z_stride_temp8)));
				  host_assert (vec_ptr_temp137 ==
				    A_core_temp1->get_vec_ptr_norm (
				      {
				      t, (x - 2), (y - (4 / VLEN_Y)),
					(z - 4)}
				      , A_step_idx_temp11));



				}	// check.


				// Read aligned vector at A(t, (x - 2), (y -
				// 8), (z - 4)).
				real_vec_t vec_temp138 = A_buf_temp120[0];

				// Check consistency of buffer.
				{
				  auto *vec_ptr_temp139 =
				    A_inner_loop_ptr_temp14 +
				    (((-2) * (A_x_stride_temp4)) +
				    ((-(8 / VLEN_Y)) * (A_y_stride_temp6)) +
				    ((-4) * (A_z_stride_temp8)));
				  host_assert (vec_ptr_temp139 ==
				    A_core_temp1->get_vec_ptr_norm (
				      {
				      t, (x - 2), (y - (8 / VLEN_Y)),
					(z - 4)}
				      , A_step_idx_temp11));



				}	// check.


				// Construct unaligned at A(t, (x - 2), (y -
				// 6), (z - 4)).
				real_vec_t unaligned_vec_temp140;
				// unaligned_vec_temp140[0] = vec_temp138[2]; 
				// // for A(t, x-2, y-6,
				// z-4);
				// unaligned_vec_temp140[1] = vec_temp138[3]; 
				// // for A(t, x-2, y-5,
				// z-4);
				// unaligned_vec_temp140[2] = vec_temp136[0]; 
				// // for A(t, x-2, y-4,
				// z-4);
				// unaligned_vec_temp140[3] = vec_temp136[1]; 
				// // for A(t, x-2, y-3,
				// z-4);
				// Get 2 element(s) from vec_temp136 and 2
				// from vec_temp138.
				real_vec_align < 2 > (unaligned_vec_temp140,
				  vec_temp136, vec_temp138);

				// Read aligned vector at A(t, (x - 2), (y -
				// 4), (z + 3)).
				auto *vec_ptr_temp142 =
				  A_inner_loop_ptr_temp14 +
				  (((-2) * (A_x_stride_temp4)) +
				  ((-(4 / VLEN_Y)) * (A_y_stride_temp6)) +
				  ((3) * (A_z_stride_temp8)));
				host_assert (vec_ptr_temp142 ==
				  A_core_temp1->get_vec_ptr_norm (
				    {
				    t, (x - 2), (y - (4 / VLEN_Y)), (z + 3)}
				    , A_step_idx_temp11));
				real_vec_t vec_temp141;
				vec_temp141.load_from (vec_ptr_temp142);

				// Read aligned vector at A(t, (x - 2), (y -
				// 8), (z + 3)).
				auto *vec_ptr_temp144 =
				  A_inner_loop_ptr_temp14 +
				  (((-2) * (A_x_stride_temp4)) +
				  ((-(8 / VLEN_Y)) * (A_y_stride_temp6)) +
				  ((3) * (A_z_stride_temp8)));
				host_assert (vec_ptr_temp144 ==
				  A_core_temp1->get_vec_ptr_norm (
				    {
				    t, (x - 2), (y - (8 / VLEN_Y)), (z + 3)}
				    , A_step_idx_temp11));
				real_vec_t vec_temp143;
				vec_temp143.load_from (vec_ptr_temp144);

				// Construct unaligned at A(t, (x - 2), (y -
				// 6), (z + 3)).
				real_vec_t unaligned_vec_temp145;
				// unaligned_vec_temp145[0] = vec_temp143[2]; 
				// // for A(t, x-2, y-6,
				// z+3);
				// unaligned_vec_temp145[1] = vec_temp143[3]; 
				// // for A(t, x-2, y-5,
				// z+3);
				// unaligned_vec_temp145[2] = vec_temp141[0]; 
				// // for A(t, x-2, y-4,
				// z+3);
				// unaligned_vec_temp145[3] = vec_temp141[1]; 
				// // for A(t, x-2, y-3,
				// z+3);
				// Get 2 element(s) from vec_temp141 and 2
				// from vec_temp143.
				real_vec_align < 2 > (unaligned_vec_temp145,
				  vec_temp141, vec_temp143);

				// Read aligned vector at A(t, (x - 2), (y +
				// 4), (z - 4)).
				real_vec_t vec_temp146 = A_buf_temp75[0];

				// Check consistency of buffer.
				{
				  auto *vec_ptr_temp147 =
				    A_inner_loop_ptr_temp14 +
				    (((-2) * (A_x_stride_temp4)) +
				    ((+(4 / VLEN_Y)) * (A_y_stride_temp6)) +
				    ((-4) * (A_z_stride_temp8)));
				  host_assert (vec_ptr_temp147 ==
				    A_core_temp1->get_vec_ptr_norm (
				      {
				      t, (x - 2), (y + (4 / VLEN_Y)),
					(z - 4)}
				      , A_step_idx_temp11));



				}	// check.


				// Read aligned vector at A(t, (x - 2), (y +
				// 8), (z - 4)).
				real_vec_t vec_temp148 = A_buf_temp90[0];

				// Check consistency of buffer.
				{
				  auto *vec_ptr_temp149 =
				    A_inner_loop_ptr_temp14 +
				    (((-2) * (A_x_stride_temp4)) +
				    ((+(8 / VLEN_Y)) * (A_y_stride_temp6)) +
				    ((-4) * (A_z_stride_temp8)));
				  host_assert (vec_ptr_temp149 ==
				    A_core_temp1->get_vec_ptr_norm (
				      {
				      t, (x - 2), (y + (8 / VLEN_Y)),
					(z - 4)}
				      , A_step_idx_temp11));



				}	// check.


				// Construct unaligned at A(t, (x - 2), (y +
				// 5), (z - 4)).
				real_vec_t unaligned_vec_temp150;
				// unaligned_vec_temp150[0] = vec_temp146[1]; 
				// // for A(t, x-2, y+5,
				// z-4);
				// unaligned_vec_temp150[1] = vec_temp146[2]; 
				// // for A(t, x-2, y+6,
				// z-4);
				// unaligned_vec_temp150[2] = vec_temp146[3]; 
				// // for A(t, x-2, y+7,
				// z-4);
				// unaligned_vec_temp150[3] = vec_temp148[0]; 
				// // for A(t, x-2, y+8,
				// z-4);
				// Get 1 element(s) from vec_temp148 and 3
				// from vec_temp146.
				real_vec_align < 1 > (unaligned_vec_temp150,
				  vec_temp148, vec_temp146);

				// Read aligned vector at A(t, (x - 2), (y +
				// 4), (z + 3)).
				auto *vec_ptr_temp152 =
				  A_inner_loop_ptr_temp14 +
				  (((-2) * (A_x_stride_temp4)) +
				  ((+(4 / VLEN_Y)) * (A_y_stride_temp6)) +
				  ((3) * (A_z_stride_temp8)));
				host_assert (vec_ptr_temp152 ==
				  A_core_temp1->get_vec_ptr_norm (
				    {
				    t, (x - 2), (y + (4 / VLEN_Y)), (z + 3)}
				    , A_step_idx_temp11));
				real_vec_t vec_temp151;
				vec_temp151.load_from (vec_ptr_temp152);

				// Read aligned vector at A(t, (x - 2), (y +
				// 8), (z + 3)).
				auto *vec_ptr_temp154 =
				  A_inner_loop_ptr_temp14 +
				  (((-2) * (A_x_stride_temp4)) +
				  ((+(8 / VLEN_Y)) * (A_y_stride_temp6)) +
				  ((3) * (A_z_stride_temp8)));
				host_assert (vec_ptr_temp154 ==
				  A_core_temp1->get_vec_ptr_norm (
				    {
				    t, (x - 2), (y + (8 / VLEN_Y)), (z + 3)}
				    , A_step_idx_temp11));
				real_vec_t vec_temp153;
				vec_temp153.load_from (vec_ptr_temp154);

				// Construct unaligned at A(t, (x - 2), (y +
				// 5), (z + 3)).
				real_vec_t unaligned_vec_temp155;
				// unaligned_vec_temp155[0] = vec_temp151[1]; 
				// // for A(t, x-2, y+5,
				// z+3);
				// unaligned_vec_temp155[1] = vec_temp151[2]; 
				// // for A(t, x-2, y+6,
				// z+3);
				// unaligned_vec_temp155[2] = vec_temp151[3]; 
				// // for A(t, x-2, y+7,
				// z+3);
				// unaligned_vec_temp155[3] = vec_temp153[0]; 
				// // for A(t, x-2, y+8,
				// z+3);
				// Get 1 element(s) from vec_temp153 and 3
				// from vec_temp151.
				real_vec_align < 1 > (unaligned_vec_temp155,
				  vec_temp153, vec_temp151);

				// Read aligned vector at A(t, (x + 4), (y -
				// 4), (z - 4)).
				real_vec_t vec_temp156 = A_buf_temp45[0];

				// Check consistency of buffer.
				{
				  auto *vec_ptr_temp157 =
				    A_inner_loop_ptr_temp14 +
				    (((4) * (A_x_stride_temp4)) +
				    ((-(4 / VLEN_Y)) * (A_y_stride_temp6)) +
				    ((-4) * (A_z_stride_temp8)));
				  host_assert (vec_ptr_temp157 ==
				    A_core_temp1->get_vec_ptr_norm (
				      {
				      t, (x + 4), (y - (4 / VLEN_Y)),
					(z - 4)}
				      , A_step_idx_temp11));



				}	// check.


				// Read aligned vector at A(t, (x + 4), (y -
				// 8), (z - 4)).
				real_vec_t vec_temp158 = A_buf_temp60[0];

				// Check consistency of buffer.
				{
				  auto *vec_ptr_temp159 =
				    A_inner_loop_ptr_temp14 +
				    (((4) * (A_x_stride_temp4)) +
				    ((-(8 / VLEN_Y)) * (A_y_stride_temp6)) +
				    ((-4) * (A_z_stride_temp8)));
				  host_assert (vec_ptr_temp159 ==
				    A_core_temp1->get_vec_ptr_norm (
				      {
				      t, (x + 4), (y - (8 / VLEN_Y)),
					(z - 4)}
				      , A_step_idx_temp11));



				}	// check.


				// Construct unaligned at A(t, (x + 4), (y -
				// 6), (z - 4)).
				real_vec_t unaligned_vec_temp160;
				// unaligned_vec_temp160[0] = vec_temp158[2]; 
				// // for A(t, x+4, y-6,
				// z-4);
				// unaligned_vec_temp160[1] = vec_temp158[3]; 
				// // for A(t, x+4, y-5,
				// z-4);
				// unaligned_vec_temp160[2] = vec_temp156[0]; 
				// // for A(t, x+4, y-4,
				// z-4);
				// unaligned_vec_temp160[3] = vec_temp156[1]; 
				// // for A(t, x+4, y-3,
				// z-4);
				// Get 2 element(s) from vec_temp156 and 2
				// from vec_temp158.
				real_vec_align < 2 > (unaligned_vec_temp160,
				  vec_temp156, vec_temp158);

				// Read aligned vector at A(t, (x + 4), (y -
				// 4), (z + 3)).
				auto *vec_ptr_temp162 =
				  A_inner_loop_ptr_temp14 +
				  (((4) * (A_x_stride_temp4)) +
				  ((-(4 / VLEN_Y)) * (A_y_stride_temp6)) +
				  ((3) * (A_z_stride_temp8)));
				host_assert (vec_ptr_temp162 ==
				  A_core_temp1->get_vec_ptr_norm (
				    {
				    t, (x + 4), (y - (4 / VLEN_Y)), (z + 3)}
				    , A_step_idx_temp11));
				real_vec_t vec_temp161;
				vec_temp161.load_from (vec_ptr_temp162);

				// Read aligned vector at A(t, (x + 4), (y -
				// 8), (z + 3)).
				auto *vec_ptr_temp164 =
				  A_inner_loop_ptr_temp14 +
				  (((4) * (A_x_stride_temp4)) +
				  ((-(8 / VLEN_Y)) * (A_y_stride_temp6)) +
				  ((3) * (A_z_stride_temp8)));
				host_assert (vec_ptr_temp164 ==
				  A_core_temp1->get_vec_ptr_norm (
				    {
				    t, (x + 4), (y - (8 / VLEN_Y)), (z + 3)}
				    , A_step_idx_temp11));
				real_vec_t vec_temp163;
				vec_temp163.load_from (vec_ptr_temp164);

				// Construct unaligned at A(t, (x + 4), (y -
				// 6), (z + 3)).
				real_vec_t unaligned_vec_temp165;
				// unaligned_vec_temp165[0] = vec_temp163[2]; 
				// // for A(t, x+4, y-6,
				// z+3);
				// unaligned_vec_temp165[1] = vec_temp163[3]; 
				// // for A(t, x+4, y-5,
				// z+3);
				// unaligned_vec_temp165[2] = vec_temp161[0]; 
				// // for A(t, x+4, y-4,
				// z+3);
				// unaligned_vec_temp165[3] = vec_temp161[1]; 
				// // for A(t, x+4, y-3,
				// z+3);
				// Get 2 element(s) from vec_temp161 and 2
				// from vec_temp163.
				real_vec_align < 2 > (unaligned_vec_temp165,
				  vec_temp161, vec_temp163);

				// Read aligned vector at A(t, (x + 4), (y +
				// 4), (z - 4)).
				real_vec_t vec_temp166 = A_buf_temp15[0];

				// Check consistency of buffer.
				{
				  auto *vec_ptr_temp167 =
				    A_inner_loop_ptr_temp14 +
				    (((4) * (A_x_stride_temp4)) +
				    ((+(4 / VLEN_Y)) * (A_y_stride_temp6)) +
				    ((-4) * (A_z_stride_temp8)));
				  host_assert (vec_ptr_temp167 ==
				    A_core_temp1->get_vec_ptr_norm (
				      {
				      t, (x + 4), (y + (4 / VLEN_Y)),
					(z - 4)}
				      , A_step_idx_temp11));



				}	// check.


				// Read aligned vector at A(t, (x + 4), (y +
				// 8), (z - 4)).
				real_vec_t vec_temp168 = A_buf_temp30[0];

				// Check consistency of buffer.
				{
				  auto *vec_ptr_temp169 =
				    A_inner_loop_ptr_temp14 +
				    (((4) * (A_x_stride_temp4)) +
				    ((+(8 / VLEN_Y)) * (A_y_stride_temp6)) +
				    ((-4) * (A_z_stride_temp8)));
				  host_assert (vec_ptr_temp169 ==
				    A_core_temp1->get_vec_ptr_norm (
				      {
				      t, (x + 4), (y + (8 / VLEN_Y)),
					(z - 4)}
				      , A_step_idx_temp11));



				}	// check.


				// Construct unaligned at A(t, (x + 4), (y +
				// 5), (z - 4)).
				real_vec_t unaligned_vec_temp170;
				// unaligned_vec_temp170[0] = vec_temp166[1]; 
				// // for A(t, x+4, y+5,
				// z-4);
				// unaligned_vec_temp170[1] = vec_temp166[2]; 
				// // for A(t, x+4, y+6,
				// z-4);
				// unaligned_vec_temp170[2] = vec_temp166[3]; 
				// // for A(t, x+4, y+7,
				// z-4);
				// unaligned_vec_temp170[3] = vec_temp168[0]; 
				// // for A(t, x+4, y+8,
				// z-4);
				// Get 1 element(s) from vec_temp168 and 3
				// from vec_temp166.
				real_vec_align < 1 > (unaligned_vec_temp170,
				  vec_temp168, vec_temp166);

				// Read aligned vector at A(t, (x + 4), (y +
				// 4), (z + 3)).
				auto *vec_ptr_temp172 =
				  A_inner_loop_ptr_temp14 +
				  (((4) * (A_x_stride_temp4)) +
				  ((+(4 / VLEN_Y)) * (A_y_stride_temp6)) +
				  ((3) * (A_z_stride_temp8)));
				host_assert (vec_ptr_temp172 ==
				  A_core_temp1->get_vec_ptr_norm (
				    {
				    t, (x + 4), (y + (4 / VLEN_Y)), (z + 3)}
				    , A_step_idx_temp11));
				real_vec_t vec_temp171;
				vec_temp171.load_from (vec_ptr_temp172);

				// Read aligned vector at A(t, (x + 4), (y +
				// 8), (z + 3)).
				auto *vec_ptr_temp174 =
				  A_inner_loop_ptr_temp14 +
				  (((4) * (A_x_stride_temp4)) +
				  ((+(8 / VLEN_Y)) * (A_y_stride_temp6)) +
				  ((3) * (A_z_stride_temp8)));
				host_assert (vec_ptr_temp174 ==
				  A_core_temp1->get_vec_ptr_norm (
				    {
				    t, (x + 4), (y + (8 / VLEN_Y)), (z + 3)}
				    , A_step_idx_temp11));
				real_vec_t vec_temp173;
				vec_temp173.load_from (vec_ptr_temp174);

				// Construct unaligned at A(t, (x + 4), (y +
				// 5), (z + 3)).
				real_vec_t unaligned_vec_temp175;
				// unaligned_vec_temp175[0] = vec_temp171[1]; 
				// // for A(t, x+4, y+5,
				// z+3);
				// unaligned_vec_temp175[1] = vec_temp171[2]; 
				// // for A(t, x+4, y+6,
				// z+3);
				// unaligned_vec_temp175[2] = vec_temp171[3]; 
				// // for A(t, x+4, y+7,
				// z+3);
				// unaligned_vec_temp175[3] = vec_temp173[0]; 
				// // for A(t, x+4, y+8,
				// z+3);
				// Get 1 element(s) from vec_temp173 and 3
				// from vec_temp171.
				real_vec_align < 1 > (unaligned_vec_temp175,
				  vec_temp173, vec_temp171);

				// expr_temp176 = (A(t, x, y, z) + A(t, (x -
				// 2), (y - 6), (z - 4)) +
				// A(t, (x - 2), (y - 6), (z + 3)) + A(t, (x
				// - 2), (y + 5), (z - 4))
				// + A(t, (x - 2), (y + 5), (z + 3)) + A(t,
				// (x + 4), (y - 6), (z -
				// 4)) + A(t, (x + 4), (y - 6), (z + 3)) +
				// A(t, (x + 4), (y + 5), (z
				// - 4)) + A(t, (x + 4), (y + 5), (z + 3))).
				real_vec_t expr_temp176 =
				  (vec_temp135 + unaligned_vec_temp140 +
				  unaligned_vec_temp145 +
				  unaligned_vec_temp150 +
				  unaligned_vec_temp155 +
				  unaligned_vec_temp160 +
				  unaligned_vec_temp165 +
				  unaligned_vec_temp170 +
				  unaligned_vec_temp175);

				// Update value at A((t + 1), x, y, z).

				// Write aligned vector at A((t + 1), x, y,
				// z).
				host_assert (A_inner_loop_ptr_temp13 ==
				  A_core_temp1->get_vec_ptr_norm (
				    {
				    (t + 1), x, y, z}
				    , A_step_idx_temp2));
				expr_temp176.
				  store_to_masked (A_inner_loop_ptr_temp13,
				  write_mask);
				;

				// Update buffer for A(t, (x + 4), (y + 4),
				// z)
				{
				  A_buf_temp15[0] = A_buf_temp15[1];
				  A_buf_temp15[1] = A_buf_temp15[2];
				  A_buf_temp15[2] = A_buf_temp15[3];
				  A_buf_temp15[3] = A_buf_temp15[4];
				  A_buf_temp15[4] = A_buf_temp15[5];
				  A_buf_temp15[5] = A_buf_temp15[6];
				  A_buf_temp15[6] = vec_temp171;
				}	// Setting A_buf_temp15

				// Update buffer for A(t, (x + 4), (y + 8),
				// z)
				{
				  A_buf_temp30[0] = A_buf_temp30[1];
				  A_buf_temp30[1] = A_buf_temp30[2];
				  A_buf_temp30[2] = A_buf_temp30[3];
				  A_buf_temp30[3] = A_buf_temp30[4];
				  A_buf_temp30[4] = A_buf_temp30[5];
				  A_buf_temp30[5] = A_buf_temp30[6];
				  A_buf_temp30[6] = vec_temp173;
				}	// Setting A_buf_temp30

				// Update buffer for A(t, (x + 4), (y - 4),
				// z)
				{
				  A_buf_temp45[0] = A_buf_temp45[1];
				  A_buf_temp45[1] = A_buf_temp45[2];
				  A_buf_temp45[2] = A_buf_temp45[3];
				  A_buf_temp45[3] = A_buf_temp45[4];
				  A_buf_temp45[4] = A_buf_temp45[5];
				  A_buf_temp45[5] = A_buf_temp45[6];
				  A_buf_temp45[6] = vec_temp161;
				}	// Setting A_buf_temp45

				// Update buffer for A(t, (x + 4), (y - 8),
				// z)
				{
				  A_buf_temp60[0] = A_buf_temp60[1];
				  A_buf_temp60[1] = A_buf_temp60[2];
				  A_buf_temp60[2] = A_buf_temp60[3];
				  A_buf_temp60[3] = A_buf_temp60[4];
				  A_buf_temp60[4] = A_buf_temp60[5];
				  A_buf_temp60[5] = A_buf_temp60[6];
				  A_buf_temp60[6] = vec_temp163;
				}	// Setting A_buf_temp60

				// Update buffer for A(t, (x - 2), (y + 4),
				// z)
				{
				  A_buf_temp75[0] = A_buf_temp75[1];
				  A_buf_temp75[1] = A_buf_temp75[2];
				  A_buf_temp75[2] = A_buf_temp75[3];
				  A_buf_temp75[3] = A_buf_temp75[4];
				  A_buf_temp75[4] = A_buf_temp75[5];
				  A_buf_temp75[5] = A_buf_temp75[6];
				  A_buf_temp75[6] = vec_temp151;
				}	// Setting A_buf_temp75

				// Update buffer for A(t, (x - 2), (y + 8),
				// z)
				{
				  A_buf_temp90[0] = A_buf_temp90[1];
				  A_buf_temp90[1] = A_buf_temp90[2];
				  A_buf_temp90[2] = A_buf_temp90[3];
				  A_buf_temp90[3] = A_buf_temp90[4];
				  A_buf_temp90[4] = A_buf_temp90[5];
				  A_buf_temp90[5] = A_buf_temp90[6];
				  A_buf_temp90[6] = vec_temp153;
				}	// Setting A_buf_temp90

				// Update buffer for A(t, (x - 2), (y - 4),
				// z)
				{
				  A_buf_temp105[0] = A_buf_temp105[1];
				  A_buf_temp105[1] = A_buf_temp105[2];
				  A_buf_temp105[2] = A_buf_temp105[3];
				  A_buf_temp105[3] = A_buf_temp105[4];
				  A_buf_temp105[4] = A_buf_temp105[5];
				  A_buf_temp105[5] = A_buf_temp105[6];
				  A_buf_temp105[6] = vec_temp141;
				}	// Setting A_buf_temp105

				// Update buffer for A(t, (x - 2), (y - 8),
				// z)
				{
				  A_buf_temp120[0] = A_buf_temp120[1];
				  A_buf_temp120[1] = A_buf_temp120[2];
				  A_buf_temp120[2] = A_buf_temp120[3];
				  A_buf_temp120[3] = A_buf_temp120[4];
				  A_buf_temp120[4] = A_buf_temp120[5];
				  A_buf_temp120[5] = A_buf_temp120[6];
				  A_buf_temp120[6] = vec_temp143;
				}	// Setting A_buf_temp120

				// Increment indices and pointers.
				z++;
				z_local_elem += 1;
				z_global_elem += 1;
				A_inner_loop_ptr_temp13 += A_z_stride_temp8;
				A_inner_loop_ptr_temp14 += A_z_stride_temp8;

				// //// Loop endings.

				/* 
				 * Var-scanning code.
				 * Generated automatically from the following pseudo-code:
				 *
				 * nested loop(1,2) { loop(3) { } }
				 *
				 */
				// Enable part 2 by defining the above macro.

				// End of scan over dim 3.
			      }
			    }

			  // End of scan over dim 2.

			  // End of scan over dim 1.
			}
		      }
		}
		// End of generated var-scanning code.

		/* 
		 * Var-scanning code.
		 * Generated automatically from the following pseudo-code:
		 *
		 * serpentine loop(1,2,3) { }
		 *
		 */
		// Enable part 1 by defining the above macro.

		// End of scan over dim 3.

		// End of scan over dim 2.

		// End of scan over dim 1.
	      }
	    }
	}
	// End of generated var-scanning code.
      }
    }				// calc_vectors
  };				// stencil_test_3d_part_1.
  static_assert (std::is_trivially_copyable < stencil_test_3d_part_1 >::value,
    "Needed for OpenMP offload");

  // //// User-provided code //////
  struct stencil_test_3d_hook_t
  {
    static void call_after_new_solution (yk_solution & kernel_soln)
    {
      // Code provided by user.
    }
  };

  // //// Overall stencil-specific context //////
  class stencil_test_3d_context_t:public StencilContext
  {
  protected:

    // /// Var(s).

    // Var 'A'.
    VarDimNames var_A_dim_names;
    YkVarPtr var_A_p;
    const idx_t A_alloc_t = 2;	// Default allocation in 't' dimension.
    // Written in stage 'stage_1' at step-offset
    // 1 with writeback (immediate replacement)
    // NOT allowed.
    const idx_t A_left_halo_x = 2;	// default halo size in 'x'
    // dimension.
    const idx_t A_right_halo_x = 4;	// default halo size in 'x'
    // dimension.
    const idx_t A_left_halo_y = 6;	// default halo size in 'y'
    // dimension.
    const idx_t A_right_halo_y = 5;	// default halo size in 'y'
    // dimension.
    const idx_t A_left_halo_z = 4;	// default halo size in 'z'
    // dimension.
    const idx_t A_right_halo_z = 3;	// default halo size in 'z'
    // dimension.
    const int A_l1_norm = 3;	// Max L1-norm of MPI neighbor for halo
    // exchanges.

    // Core data used in kernel(s).
    stencil_test_3d_core_t _core_data;
      std::vector < stencil_test_3d_thread_core_t,
      yask_allocator < stencil_test_3d_thread_core_t >> _thread_cores;

    // Stencil parts.
      StencilPartTmpl < stencil_test_3d_part_1,
      stencil_test_3d_core_t > part_1;

  public:

    // Constructor.
      stencil_test_3d_context_t (KernelEnvPtr kenv,
      KernelSettingsPtr ksettings,
      KernelSettingsPtr user_settings):StencilContext (kenv, ksettings,
      user_settings), part_1 (this)
    {
      STATE_VARS (this);
      name = "test_3d";
      long_name = "test_3d radius 2";

      // Create vars (but do not allocate data in them).

      // Var 'A'.
      var_A_dim_names = { "t", "x", "y", "z" };
      var_A_base_ptr_t var_A_base_p =
	std::allocate_shared < var_A_base_t > (yask_allocator < var_A_base_t >
	(), *this, "A", var_A_dim_names);
      host_assert (var_A_base_p);
      var_A_p = std::make_shared < YkVarImpl > (var_A_base_p);
      host_assert (var_A_p->gbp ());
      var_A_base_p->_set_dynamic_step_alloc (false);
      var_A_p->_set_alloc_size ("t", A_alloc_t);
      var_A_p->set_left_halo_size ("x", A_left_halo_x);
      var_A_p->set_right_halo_size ("x", A_right_halo_x);
      var_A_p->set_left_halo_size ("y", A_left_halo_y);
      var_A_p->set_right_halo_size ("y", A_right_halo_y);
      var_A_p->set_left_halo_size ("z", A_left_halo_z);
      var_A_p->set_right_halo_size ("z", A_right_halo_z);
      var_A_p->set_halo_exchange_l1_norm (A_l1_norm);
      var_A_base_p->_set_dynamic_misc_alloc (false);
      var_A_base_p->set_misc_mult (1);
      add_var (var_A_p, true, true /* is an output var */ );

      // Update vars with context info.
      update_var_info (false);

      // Configure parts:

      // part 'part_1' w/o domain condition and w/o step condition.

      // The following var(s) are read by 'part_1'.
      part_1.input_var_ptrs.push_back (var_A_p);

      // The following var(s) are written by 'part_1' at '(t + 1)'.
      part_1.output_var_ptrs.push_back (var_A_p);

      // Stage(s) and their parts:

      // Non-scratch stage 'stage_1'.
      auto stage_1 = std::make_shared < Stage > (this, "stage_1");
      st_stages.push_back (stage_1);
      stage_1->push_back (&part_1);
      st_parts.push_back (&part_1);

      // Alloc core on offload device.
      auto *cxt_cd = &_core_data;
      offload_map_alloc (cxt_cd, 1);

      // Call code provided by user.
      stencil_test_3d_hook_t::call_after_new_solution (*this);
    }				// ctor

    // Dtor.
    virtual ~ stencil_test_3d_context_t ()
    {
      STATE_VARS (this);
      auto *cxt_cd = &_core_data;
      offload_map_free (cxt_cd, 1);
      auto *tcl = _thread_cores.data ();
      auto nt = _thread_cores.size ();
      if (tcl && nt)
	offload_map_free (tcl, nt);
    }

    // Make a new var iff its dims match any in the stencil.
    // Return pointer to the new var or nullptr if no match.
    VarBasePtr new_stencil_var (const std::string & name,
      const VarDimNames & dims) override
    {
      VarBasePtr gp;

      // Vars with 't, x, y, z' dim(s).
      if (dims == var_A_dim_names)
	gp =
	  std::allocate_shared < var_A_base_t > (yask_allocator <
	  var_A_base_t > (), *this, name, dims);
      return gp;
    }				// new_stencil_var

    // Set the core pointers of the non-scratch vars and copy some other
    // info.
    void set_core () override
    {
      auto *cxt_cd = &_core_data;
      cxt_cd->_common_core.set_core (this);
      offload_copy_to_device (cxt_cd, 1);
      auto *var_A_core_p = static_cast < var_A_core_t * >(var_A_p->corep ());
      cxt_cd->var_A_core_p.set_and_sync (var_A_core_p);
    }

    // Access the core data.
    StencilCoreBase *corep () override
    {
      return &_core_data;
    }

    // Make new scratch vars for each thread and sync offload core ptr.
    // Does not allocate data for vars.
    // Must call set_core() before this.
    void make_scratch_vars (int num_threads) override
    {
      STATE_VARS (this);
      TRACE_MSG ("num threads: " << num_threads);

      // Release old device data for thread array.
      auto *tcl = _thread_cores.data ();
      auto old_nt = _thread_cores.size ();
      if (tcl && old_nt)
	offload_map_free (tcl, old_nt);

      // Make new array.
      _thread_cores.resize (num_threads);
      tcl = num_threads ? _thread_cores.data () : 0;
      TRACE_MSG ("data at " << (void *) tcl);
      if (tcl)
	offload_map_alloc (tcl, num_threads);
      _core_data._thread_core_list.set_and_sync (tcl);

      // Create scratch var(s) and set core ptr(s).
    }				// make_scratch_vars

    virtual std::string get_target () const override
    {
      return "avx2";
    }

    virtual int get_element_bytes () const override
    {
      return 8;
    }

    // Create Dims object.
    static DimsPtr new_dims ()
    {
      auto p = std::make_shared < Dims > ();
      p->_vec_fold_layout.set_size (0, 4);	// 'y'
      p->_step_dim = "t";
      p->_inner_layout_dim = "z";
      p->_inner_loop_dim = "z";
      p->_domain_dims.add_dim_back ("x", 0);
      p->_domain_dims.add_dim_back ("y", 0);
      p->_domain_dims.add_dim_back ("z", 0);
      p->_stencil_dims.add_dim_back ("t", 0);
      p->_stencil_dims.add_dim_back ("x", 0);
      p->_stencil_dims.add_dim_back ("y", 0);
      p->_stencil_dims.add_dim_back ("z", 0);
      p->_fold_pts.add_dim_back ("x", 1);
      p->_fold_pts.add_dim_back ("y", 4);
      p->_fold_pts.add_dim_back ("z", 1);
      p->_fold_sizes.set_from_tuple (p->_fold_pts);
      p->_vec_fold_pts.add_dim_back ("y", 4);
      p->_fold_pts.set_first_inner (true);
      p->_vec_fold_pts.set_first_inner (true);
      p->_step_dir = 1;
      return p;
    }
  };				// stencil_test_3d_context_t
}				// namespace yask.


//End of automatically-generated code.
