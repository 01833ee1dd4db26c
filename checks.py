TRUST = [
    'float and double arithmetic is exact real arithmetic: rounding, overflow and NaN are outside the claim (expressions are compared as real functions; counterexamples must reproduce in float)',
]
ADE = 'the graph library ade is replaced by a stand-in with the documented behaviour of its graph, metadata and topological sort (ade is not installed here)'
CHECKS = {
    'C01': dict(harness='c_tensor.cpp', entries=['e_geometry', 'e_reject', 'e_addressing', 'e_reshape', 'e_reshape_small', 'e_default','e_ranks'], bounds='rank 0..4 with every dimension in [-40000, 40000] (geometry), ranks 1..3 with dimensions in [-70000, 70000] (reshape), storage addressed exhaustively for dimensions up to 3; ranks 5..7 with dimensions 1..2', outside='larger ranks and dimensions; tensors whose storage exceeds the address space'),
    'C02': dict(harness='c_tensor.cpp', entries=['e_copy', 'e_copy_view', 'e_copy_empty', 'e_copy_large','e_copy_huge','e_ranks','e_copy_vast'], bounds='all values; shapes of rank 1..3 with dimensions 1..3 on both sides, one 3x17x5 tensor, views into a 6-float buffer; one 5x3x2x37 tensor; ranks 5..7 with dimensions 1..2; 66006 elements with the first, middle and last element of each array free and the others fixed', outside='larger tensors'),
    'C03': dict(harness='c_init.cpp', entries=['e_fill', 'e_fill_large', 'e_fill_view', 'e_uniform', 'e_uniform_spread', 'e_xavier', 'e_xavier_spread','e_fill_huge','e_fill_vast','e_draw_many','e_draw_again'], reach=['xavier 2-D spans its range','xavier 4-D spans its range','uniform spans its range, elements independent','uniform spans its range, the other way','uniform draws again','xavier draws again','xavier then uniform draw again','uniform draws a third time','xavier draws a third time','a third draw is new'], bounds='all fill values and ranges within [-1000, 1000]; rank 1..4 with dimensions 1..2 (xavier: 1..3, at most 12 elements for rank 4); vectors of 61..67; every draw of the generator; zeros and constant over 1030 elements; zeros and constant over 66006 elements; 301 draws', outside='distribution beyond its support and independence; larger tensors'),
    'C05': dict(harness='c_linear.cpp', entries=['e_linear2d', 'e_linear4d', 'e_linear_large', 'e_linear_tall', 'e_linear_wide', 'e_linear_units','e_linear_vast','e_linear_real'], bounds='all values; batch, features, units 1..3, built for a batch of 3; 4-D inputs [1..2, 2, 2, 1..2]; batches of 9..10 with 13 features and 6 units (Eigen\'s blocked product), 37 x 3, 67 features, 35 units; 40 x 130 -> 70, 300 x 5 -> 3, 2 x 1030 -> 3, 3 x 2 -> 1030, 1101 x 2 -> 2 and 16 x 784 -> 10 with the first, middle and last element of each array free and the others fixed', outside='larger matrices'),
    'C04': dict(harness='c_shape.cpp', entries=['e_pool_shape', 'e_conv_shape', 'e_linear_shape', 'e_same_shape', 'e_bn_shape', 'e_gap_add_shape', 'e_rank_reject', 'e_attrs'], bounds='kernel 1..64, padding 0..32, stride 1..64, dimensions 1..1024 (pooling); kernel 1..3, padding 0..16, stride 1..32 (convolution, parameters allocated); dimensions up to 4096 elsewhere', outside='larger values; Convolution on inputs of rank below 2 and BatchNorm2D of rank 1 (they read the channel dimension before they validate)'),
    'C06': dict(harness='c_act.cpp', entries=['e_relu', 'e_leaky', 'e_elu', 'e_sigmoid', 'e_large', 'e_mismatch', 'e_far', 'e_big','e_vast'], bounds='inputs within 1e30 (ReLU, LeakyReLU) or 80 and 105..1e37 (ELU, Sigmoid), alpha in [-8, 8]; ranks 1..4 with up to 6 elements, one [5, 9] tensor; [5, 131] tensors with one sign per element; [3, 67] tensors with one sign per element; two calls per layer; 66003 (ReLU, LeakyReLU) or 4203 elements with the first, middle and last element of each array free and the others fixed', outside='ELU and Sigmoid between 80 and 105 (denormal results)'),
    'C07': dict(harness='c_act.cpp', entries=['e_relu_b', 'e_leaky_b', 'e_elu_b', 'e_sigmoid_b', 'e_large_b', 'e_far_b', 'e_big_b','e_vast_b'], bounds='inputs within 1e30 (ReLU, LeakyReLU) or 80 and 105..1e37 (ELU, Sigmoid) without the kink, alpha in [-8, 8], all gradients; ranks 1..4 with up to 6 elements, one [5, 9] tensor; [5, 131] tensors with one sign per element; 66003 (ReLU, LeakyReLU) or 4203 elements with the first, middle and last element of each array free and the others fixed', outside='x = 0 for ReLU, LeakyReLU, ELU'),
    'C08': dict(harness='c_softmax.cpp', entries=['e_softmax', 'e_softmax_far', 'e_softmax_far3', 'e_softmax_wide', 'e_softmax_ranked', 'e_softmax_tall', 'e_softmax_b', 'e_softmax_b_large', 'e_softmax_reject','e_softmax_vast','e_softmax_b_vast'], bounds='batch 1..2, classes 1..3, 1 x 4..5, 17 x 1, 2 x 11 and 19 x 2 in a fixed order of the scores; scores within 3e38, spread 60; backward also 5 x 7; 2 x 300 and 520 x 3 with one score free; backward 5000 x 3 and 2 x 300 with the first, middle and last element of each array free and the others fixed', outside='wider rows (forward)'),
    'C09': dict(harness='c_conv.cpp', entries=['e_conv_rows','e_conv_cols','e_conv_channels','e_conv_square','e_conv_large','e_conv_mixed','e_conv_wide','e_conv_attrs','e_conv_big','e_conv_vast','e_conv_real'], bounds='all values; one axis at a time: size 1..4, kernel 1..3, padding 0..2, stride 1..3 with asymmetric other axis; channels and batches 1..3; 4x4 images with 2 channels; one 9x2x5x6 batch; both axes at once: 5x4 images, kernel 1..3, padding 0..2, stride 1..3; one wide axis: size 5..8, kernel 4..7, padding 0..3, stride 1..4; 17 channels, 19 filters, one 13x11 image; 70x40 images, 70 channels, 70 filters, batches of 1100, a 2x3x32x32 batch with 8 filters with the first, middle and last element of each array free and the others fixed', outside='larger geometries'),
    'C10': dict(harness='c_conv.cpp', entries=['e_conv_b_rows','e_conv_b_cols','e_conv_b_channels','e_conv_b_square','e_conv_b_large','e_conv_b_mixed','e_conv_b_wide','e_conv_order','e_conv_b_big','e_conv_b_vast','e_conv_b_real'], bounds='as C09 with channels 1..2; one 9x2x4x5 batch; either call order; an earlier forward of batch 0..3; 17 channels, 19 filters, one 13x11 image; 70x40 images, 70 channels, 70 filters, batches of 1100, a 2x3x32x32 batch with 8 filters with the first, middle and last element of each array free and the others fixed', outside='larger geometries'),
    'C11': dict(harness='c_pool.cpp', entries=['e_pool_rows','e_pool_cols','e_pool_square','e_pool_planes','e_pool_large','e_pool_wide','e_pool_mixed','e_pool_attrs','e_pool_big','e_pool_vast','e_pool_window'], bounds='all values; one axis at a time: size 1..4, kernel 1..3, padding 0..2, stride 1..3; 2x3 images with 2x2 windows; planes 1..3 x 1..2; 3x2x4x5 batches in three fixed orders of the values (all finite floats); both axes at once on 5x4 images (kernel 1..3, padding 0..1, stride 1..3) and one wide axis (size 5..7, kernel 3..5, padding 0..2, stride 1..4) in fixed orders; 17x9 images and 34 planes in a fixed order of the values; 70x66 and 35x40 images, 5000 planes or images with the first, middle and last element of each array free and the others fixed; windows of 300..660 elements with one free maximum', outside='larger geometries; all orders of larger images'),
    'C12': dict(harness='c_pool.cpp', entries=['e_pool_b_rows','e_pool_b_cols','e_pool_b_square','e_pool_b_planes','e_pool_b_large','e_pool_b_wide','e_pool_b_mixed','e_pool_order','e_pool_b_big','e_pool_b_vast','e_pool_b_window'], bounds='as C11, no ties within a window; 17x9 images and 34 planes in a fixed order of the values; 70x66 and 35x40 images, 5000 planes or images with the first, middle and last element of each array free and the others fixed; windows of 300..660 elements with one free maximum', outside='ties'),
    'C13': dict(harness='c_pool.cpp', entries=['e_gap','e_gap_large','e_add','e_add_large','e_gap_huge','e_add_huge','e_gap_vast','e_add_vast'], bounds='all values; planes up to 3x3, 2x3 of them, one 5x4x3x7; Add over ranks 1..4 and 7x11; 17x19 planes, 111 planes; 5x131 sums; 70x66 planes, 5000 planes or images, sums of 22006 with the first, middle and last element of each array free and the others fixed', outside='larger tensors'),
    'C14': dict(harness='c_bn.cpp', entries=['e_bn1','e_bn2','e_bn_modes','e_bn_large','e_bn2_large','e_bn_mixed','e_bn_tall','e_bn_wide','e_bn2_wide','e_bn2_area','e_bn_far','e_bn_offset','e_bn_vast'], bounds='all inputs in [-8, 8], gamma, beta, statistics (variance up to 1e6), eps in [1e-12, 100], alpha in [0, 1]; batch 1..3 x 1..2 channels, 2-D up to 2x2x2x2, two or three calls in every mode combination; single calls 7x5 and 3x3x2x3; 37x2, 2x35, 2x19x1x2 and 1x2x5x7 batches; rounding: batches k, k + 1 for every integer k in 0..8191, floats as IEEE bit patterns; batches of 1100, 300 channels, 70 2-D channels, 20x17 planes with the first, middle and last element of each array free and the others fixed', outside='longer histories, larger batches; rounding of other batches'),
    'C15': dict(harness='c_bn.cpp', entries=['e_bn1_b','e_bn2_b','e_bn1_b_large','e_bn1_b_wide','e_bn2_b_wide','e_bn2_b_large','e_bn_b_far','e_bn1_b_tall','e_bn2_b_tall','e_bn_b_vast'], bounds='all inputs in [-8, 8], all gradients, gamma, eps in [1e-12, 100]; batch 1..3, 2-D with at most 4 elements per channel, an earlier call of batch 0..3, 5x3; 2x19, 19x1, 11x1x1x1, 1x11x1x2 and 1x2x2x3 batches; batches of 520, 140 channels, 70 2-D channels, 20x17 planes with the first, middle and last element of each array free and the others fixed', outside='larger batches; evaluation-mode backward'),
    'C31': dict(harness='c_bn.cpp', entries=['e_layout','e_layout_large','e_layout_huge','e_layout_vast'], bounds='all values; batches 0..2, dimensions 1..3, one 3x5x4x7; 1x3x33x35 and 2x35x5x9; 1x3x130x70, 2x1100x3x5 and 5000x2x3x2 with the first, middle and last element of each array free and the others fixed', outside='larger tensors'),
    'C16': dict(harness='c_drop.cpp', entries=['e_drop','e_drop4d','e_drop_modes','e_drop_large','e_drop_none','e_drop_rate','e_drop_spread','e_drop_wide','e_drop_vast','e_drop_again'], bounds='all inputs in [-100, 100] other than 0, rates in [0, 0.99]; up to 4 elements with every outcome of the draws, up to three calls; 40x3 without drops; 21x3 elements with the draws of every second, third or fourth element dropping (rates 0.1..0.9); 66003 elements (evaluation) and 903 (rate 0) with the first, middle and last element of each array free and the others fixed', outside='statistics of the generator; rates above 0.99', reach=['kept, then dropped','dropped, then kept','first kept, second dropped','first dropped, second kept','both kept','both dropped','another layer draws again','another call draws again']),
    'C17': dict(harness='c_loss.cpp', entries=['e_ce','e_ce_reuse','e_ce_backonly','e_ce_large','e_ce_reject','e_ce_huge','e_ce_classes','e_ce_vast'], bounds='probabilities in [1e-37, 1e6]; batch and classes 1..3 with every labelling, reuse across shapes, 33x11 and 64x3 with fixed labels; 131x3 and 3x131; 1030 classes with six labels; 5000x3, 70x130 and 300x230 with the first, middle and last element of each array free and the others fixed', outside='labels out of range (documented precondition), zero probabilities'),
    'C18': dict(harness='c_loss.cpp', entries=['e_acc','e_acc_hot','e_acc_large','e_acc_reject','e_acc_huge','e_acc_classes','e_acc_rows'], bounds='all scores without ties in a row; batch and classes 1..3 with every labelling; 43x6 with a fixed order per row; 131x2, 12x67, 1x300 and 66001x2', outside='ties'),
    'C19': dict(harness='c_opt.cpp', entries=['e_sgd','e_sgd_large','e_mom','e_mom_default','e_mom_large','e_sgd_history','e_mom_history','e_sgd_huge','e_mom_huge','e_sgd_vast','e_mom_vast'], bounds='all weights and gradients, rates in [-10, 10], gamma in [0, 1]; two parameters, three steps, every freeze pattern; five steps of one weight; 71 weights; 335 weights; 40 steps with given gradients; 66021 weights with the first, middle and last element of each array free and the others fixed', outside='longer histories'),
    'C20': dict(harness='c_opt.cpp', entries=['e_adam','e_adam_long','e_adam_sym','e_adam_resume','e_adam_late','e_adam_large','e_adam_history','e_adam_huge','e_adam_late_default','e_adam_vast'], bounds='all weights and gradients, rates in [-10, 10]; default and (0.5, 0.75, 0.25) hyper-parameters up to six steps, symbolic betas in [0, 0.95] for two steps, every freeze pattern for three steps, resumed counts 0..6, 9, 10, 31, 99, 100, 255; 335 weights; 40 steps with one given gradient (betas 0.5); 6021 weights with the first, middle and last element of each array free and the others fixed', outside='longer histories'),
    'C21': dict(harness='c_drop.cpp', entries=['e_seq','e_seq_large','e_shuffle','e_shuffle2','e_loader_shape','e_loader_wide','e_loader_many','e_loader_epochs','e_shuffle_big','e_loader_vast','e_shuffle_again'], bounds='data sets of 0..7 and 37..40 samples, batches 1..4 and 5..10, three epochs, all sample values; shuffling: 0..4 samples, batches 1..3, at most 6 draws; 17 samples with batches of 1 and 2; sample shapes of rank 1..3, labels of rank 1..2, 133 samples in batches of 1, 16, 64, 70, 35 epochs; 300 samples in batches of 7 and 260, 66005 in batches of 1100; samples of 1030 values', outside='longer rejection sequences of the shuffling loop', reach=['first sample drawn','last sample drawn','first of many drawn','last of many drawn','another loader draws again','another epoch draws again','another batch draws again']),
    'C27': dict(harness='c_image.cpp', entries=['e_read','e_read_large','e_mismatch','e_missing','e_not_png','e_broken','e_leak','e_depth','e_extension','e_view','e_read_vast'], bounds='8-bit images up to 3x3x4 and 17x9x3 with every sample value; depths 1..16 up to 9x2; failures at header and row stage; file, decoder and setjmp libraries replaced by stand-ins that follow their documented contract; 300x3x3, 3x300x3, 130x67x4 and 70x66x1 with the first, middle and last sample free', outside='the real libpng/libjpeg; interlaced or progressive specifics'),
    'C22': dict(harness='c_layer.cpp', entries=['e_hist_'+x for x in 'linear relu elu leaky sigmoid softmax bn1 bn2 pool conv drop gap add sizes long reload'.split()] + ['e_back_again'], bounds='every layer type on small tensors (up to 2 channels, 2-3 pixels); an earlier batch of 0..3 with or without backward, then a batch of 1..3, interleaved with another layer of the type; earlier images of other sizes (1..2 x 1..3); all values in [-8, 8], all parameters and state; built for a batch of 1 or 3; three earlier batches in four sequences of sizes; parameters, statistics and mode replaced between two batches of 1..2 (Linear, BatchNorm, Convolution); two or three backward passes after one forward pass, also on other tensors of the same values', outside='longer histories; larger tensors (kernels themselves: C05-C16); Dropout in training mode with a rate above 0 (C16)'),
    'C30': dict(harness='c_layer.cpp', entries=['e_make_plain','e_make_attrs','e_make_window','e_make_reject','e_make_sizes'], bounds='all 13 types; all float attributes, units and channels 1..3, kernel, padding, stride up to 9 (pooling) or 2 (convolution, run); seven unknown names; 67 and 300 units, 17 and 70 filters, 300 and 70 channels', outside='attributes of a wrong type or missing'),
    'C34': dict(harness='c_layer.cpp', entries=['e_arity','e_ranks','e_shapes'], bounds='0..3 inputs and outputs; ranks 1..5; nine output shapes around [2, 2]; both modes; all values', outside='Convolution, MaxPooling, GlobalAvgPooling and Add, which do not examine their tensors; malformed backward calls'),
    'C23': dict(harness='c_layer.cpp', entries=['e_par','e_par_conv','e_par_conv_large','e_par_large','e_par_add'], omp=True, bounds='sources compiled with OpenMP; batches 1..8 with one iteration per thread (any two iterations may run concurrently), 9..17 in blocks; every layer type, convolution with kernels 1..2, strides 1..2, padding 0..1, channels 1..2; all values', outside="Eigen's own parallel products (disabled inside parallel regions and not part of this code base), larger batches, nested regions", assumes=['two accesses of different threads in one parallel region without a barrier between them can overlap in time; accesses inside critical sections, atomics, reductions and guarded static initialisations cannot']),
    'C28': dict(harness='c_model.cpp', entries=['e_net_small','e_net3','e_net3_two','e_net_wide', 'e_net_ports','e_net_adds', 'e_dag2d', 'e_dag4d', 'e_row2d', 'e_row4d', 'e_parts'], extra=['c_dag.cpp'], thorough_entries=['e_net4'], bounds='every graph of 1..2 operations (Linear, Add, Sigmoid) over 1..2 inputs with 1..2 outputs in either order, every graph of 3 operations (Linear, Add), one residual network of 8 operations with 3 outputs; two topological orders; all values; up to two training steps; one graph of 24 sums and sigmoids with 3 outputs; any two placeholders of graphs of 1..2 operations as outputs (inputs among them, or one twice), inputs no output needs; diamonds and rows of three layers of every pair of types against the layers called by hand; head, tail and whole of one expression as three models used in turns', outside='larger graphs; graphs of parameterised layers applied twice; outputs that need a placeholder that is not an input', assumes=[ADE]),
    'C29': dict(harness='c_model.cpp', entries=['e_names','e_model_reject','e_model_modes','e_names_many', 'e_names_part'], bounds='chains of 1..3 layers (Linear, BatchNorm1D, Sigmoid), each named or not, two topological orders; one chain of 23 layers; the six parts of one chain of 3 layers', outside='longer models', assumes=[ADE]),
    'C32': dict(harness='c_train.cpp', entries=['e_chain2d','e_chain4d','e_loop_sgd','e_loop_momentum','e_loop_adam','e_loop_sample','e_loop_conv'], bounds='every ordered pair of 9 layer types on [2, 1] inputs and of 11 layer types on [1, 1, 2, 3] images, one pass in either mode; training of Linear-Linear-Softmax (SGD, momentum), Linear-Sigmoid-Softmax (Adam) for two steps with every freeze pattern; of the sample network Linear-ReLU-BatchNorm1D-Linear-Softmax and of Convolution-ReLU-MaxPooling-Linear-Softmax for one step with a validation pass; all values (inputs within 8, rates in [0, 1])', outside='longer chains and histories, branching models (C28), Dropout with a rate above 0 inside a model', assumes=[ADE]),
    'C33': dict(harness='c_samples.cpp', extra=['wrap/%s.cpp' % x for x in ('mnist', 'cifar10', 'cifar100', 'iris')], entries=['e_mnist','e_cifar10','e_cifar100','e_cifar100_pixels','e_iris'], bounds='2..3 images of 28x28 (MNIST) and 2 of 32x32x3 (CIFAR-10, every class; CIFAR-100 in two data sets of 2..3 files) with every pixel value; Iris files of 0..3 rows with every label, with or without a final newline; the directory listed in name order or reversed', outside='more files; malformed CSV rows and foreign files in the directories; the command-line programs'),
    'C24': dict(harness='c_serial.cpp', entries=['e_state','e_state_reject','e_save_fails','e_state_names','e_state_big','e_state_many','e_state_conv','e_state_shapes','e_state_entries','e_state_bits','e_state_vast','e_state_entries_many'], bounds='all parameter values; Linear with 1..3 units with or without BatchNorm1D; by path and by stream; a second save to the same path; unopenable path and full device; names of 1..300 characters, 67 units, 14 layers, convolution weights; state dictionaries with shapes of rank 1..3 and dimensions 1..2 on either side, six entry names; every bit pattern of a float; 70007 elements with the first, middle and last free; 300 entries', outside='larger models; whether a state file with a subset of the entries is accepted', assumes=[ADE, 'file streams are replaced by an in-memory stand-in with the documented behaviour of std::ifstream and std::ofstream; replays use real files']),
    'C25': dict(harness='c_serial.cpp', entries=['e_trunc_state','e_trunc_cfg','e_trunc_model','e_missing','e_wrong_kind','e_bad_kind'], bounds='state, config and model files of a one-unit model cut at every byte, every kind field in [-3, 300], every combination of file and loader', outside='other damage (altered bytes)', assumes=[ADE, 'file streams are replaced by an in-memory stand-in with the documented behaviour of std::ifstream and std::ofstream; replays use real files']),
    'C26': dict(harness='c_serial.cpp', entries=['e_cfg_types','e_rebuild','e_rebuild_ports', 'e_rebuild_part', 'e_rebuild_large','e_rebuild_deep','e_rebuild_names','e_cfg_any','e_cfg_many'], bounds='one layer of each of the 13 types with all float attributes, kernels up to 2; every graph of 1..2 operations (Linear, Add) over 1..2 inputs in either order with 1..2 outputs in either order; one graph of 6 operations, 3 inputs, 3 outputs; four ways to rebuild; two topological orders; all parameters and inputs; 14 layers; names of 1..300 characters; padding and stride up to 1000; hand-made configurations of 0..2 inputs, outputs, placeholders and operations with all ids, dimensions and attribute values of the four kinds; a configuration of 300 inputs, outputs, placeholders and operations, one operation with 300 ids and attributes, one placeholder with 300 dimensions; inputs as outputs, outputs listed twice, unused inputs; models that start inside an expression', outside='larger graphs; save_dot', assumes=[ADE, 'file streams are replaced by an in-memory stand-in with the documented behaviour of std::ifstream and std::ofstream; replays use real files']),
    'C35': dict(harness='c_text.cpp', entries=['e_print_tensor','e_print_big','e_print_empty','e_print_shape','e_dot_graphs','e_dot_names','e_dot_any','e_dot_large','e_dot_fails','e_print_vast'], bounds='tensors of rank 1..4 with dimensions 1..3, 1x67 and 3x5x7, all values within 1e5; shapes of rank 0..6 with every dimension; every graph of 1..2 operations (Linear, Add) over 1..2 inputs; eleven layer names; hand-made configurations of up to 3 placeholders and 2 operations; a chain of 13 operations; unopenable path and full device; 1030 and 1122 elements with the first, middle and last free', outside='number formatting (libstdc++); larger graphs', assumes=[ADE, 'formatted output is recorded at the calls to std::ostream (the formatting itself is libstdc++); file streams are replaced by an in-memory stand-in; replays use real streams and files']),
}
