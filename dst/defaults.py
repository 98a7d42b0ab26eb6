"""Default arguments users rely on (tables generated by tools/defaults.py, reviewed).  A caller may leave them out."""
import enum

import numpy as np

DEFAULTS = {'awgn_channel': {'snr': None, 'zi': None},
 'bin2symbol': {'bit_order_inv': False, 'inv_lsb': False, 'inv_msb': False, 'pn_inv': False},
 'buffer': {'clip': False, 'delay': 0, 'overlap': 0},
 'channel_estimation_prbs': {'bit_order_inv': False,
                             'channel_postcursor': 500,
                             'channel_precursor': 19,
                             'gray_coding': False,
                             'normalize': False,
                             'pn_inv_postcoding': False,
                             'pn_inv_precoding': False,
                             'prbs_full_scale': False},
 'coding_conv': {'feedback': None, 'use_feedback': None, 'zi': None},
 'coding_differential': {'constellation': ('enum', 'PAM4')},
 'coding_gray': {'constellation': ('enum', 'PAM4')},
 'ctle': {'zi': None},
 'ddlms_grad': {'dfe_tap_idx': ('array', []), 'ffe_tap_idx': ('array', []), 'reference_vec': None},
 'decoding_bipolar': {'error_detection': False},
 'decoding_conv_ml': {'error_prob': False, 'feedback': None, 'use_feedback': None},
 'decoding_conv_viterbi': {'error_prob': False, 'feedback': None, 'use_feedback': None},
 'decoding_differential': {'constellation': ('enum', 'PAM4')},
 'decoding_gray': {'constellation': ('enum', 'PAM4')},
 'decoding_linear': {'error_prob': False},
 'demapping': {'full_scale': False, 'pn_inv': False},
 'dig_delay_lagrange_coeffs': {'forward': True},
 'dig_delay_sinc_coeffs': {'forward': True},
 'dig_delay_rcos_coeffs': {'forward': True, 'beta': 0.5},
 'digital_oversample': {'beta': 0},
 'equalization_estimation': {'dfe_taps': 0, 'ffe_postcursor': 23, 'ffe_precursor': 4, 'normalize': False, 'reg_lambda': 0, 'regularization': 'None'},
 'equalization_estimation_prbs': {'bit_order_inv': False,
                                  'dfe_taps': 0,
                                  'ffe_postcursor': 23,
                                  'ffe_precursor': 4,
                                  'gray_coded': True,
                                  'normalize': False,
                                  'pn_inv_postmapping': False,
                                  'pn_inv_precoding': False,
                                  'prbs_full_scale': False,
                                  'reg_lambda': 0,
                                  'regularization': 'None'},
 'eye_diagram': {'fs_value': 1, 'logscale': False, 'quantization': 256},
 'ffe_dfe': {'dfe_taps': None, 'ffe_taps': ('array', [1]), 'levels': None, 'osr': 1, 'phase': 0, 'zi_dfe': None, 'zi_ffe': None},
 'get_levels': {'full_scale': False},
 'least_squares': {'reg_lambda': 0, 'regularization': 'None'},
 'mapping': {'full_scale': False, 'levels': None, 'pn_inv': False},
 'mueller_muller_step': {'post_weight': 1, 'pre_weight': 1, 'tol': 0.001},
 'prbs_checker': {'loss_th': 100, 'prbs_seq': None},
 'prbs_checker_economy': {'loss_th': 100},
 'pulse_shape': {'beta': 0.5, 'osr': 1, 'pulse': 'rect', 'rj_sigma': 0.0, 'span': 1, 'zi': None},
 'quantize': {'fix_point_type': 'u', 'frac_bits': 0},
 'rcos_pulse': {'t': None},
 'rect_pulse': {'t': None},
 'rrc_pulse': {'t': None},
 'sinc_pulse': {'t': None},
 'slicer': {'levels': None},
 'soft_ddlms_grad': {'dfe_tap_idx': ('array', []), 'ffe_tap_idx': ('array', []), 'reference_vec': None, 'sigma': 1},
 'symbol2bin': {'bit_order_inv': False, 'inv_lsb': False, 'inv_msb': False, 'pn_inv': False}}
POSITION = {'awgn_channel': ('signal', 'b', 'a', 'snr', 'zi'),
 'bin2symbol': ('bin_mat', 'num_of_symbols', 'bit_order_inv', 'inv_msb', 'inv_lsb', 'pn_inv'),
 'buffer': ('signal', 'length', 'overlap', 'delay', 'clip'),
 'channel_estimation_prbs': ('prbs_type',
                             'signal',
                             'constellation',
                             'prbs_full_scale',
                             'channel_postcursor',
                             'channel_precursor',
                             'normalize',
                             'bit_order_inv',
                             'pn_inv_precoding',
                             'gray_coding',
                             'pn_inv_postcoding'),
 'coding_conv': ('pattern', 'G', 'feedback', 'use_feedback', 'zi'),
 'coding_differential': ('pattern', 'constellation'),
 'coding_gray': ('pattern', 'constellation'),
 'ctle': ('signal', 'zeros', 'poles', 'dc_gain', 'fs', 'osr', 'zi'),
 'ddlms_grad': ('input_vec', 'output_vec', 'levels', 'ffe_tap_idx', 'dfe_tap_idx', 'reference_vec'),
 'decoding_bipolar': ('pattern', 'error_detection'),
 'decoding_conv_ml': ('pattern', 'G', 'tb_len', 'feedback', 'use_feedback', 'error_prob'),
 'decoding_conv_viterbi': ('pattern', 'G', 'tb_len', 'feedback', 'use_feedback', 'error_prob'),
 'decoding_differential': ('pattern', 'constellation'),
 'decoding_gray': ('pattern', 'constellation'),
 'decoding_linear': ('pattern', 'G', 'error_prob'),
 'demapping': ('signal', 'constellation', 'full_scale', 'pn_inv'),
 'dig_delay_lagrange_coeffs': ('n', 'alpha', 'forward'),
 'dig_delay_sinc_coeffs': ('n', 'alpha', 'forward'),
 'dig_delay_rcos_coeffs': ('n', 'alpha', 'forward', 'beta'),
 'digital_oversample': ('signal_vec', 'osr', 'order', 'method', 'beta'),
 'equalization_estimation': ('reference_signal',
                             'signal',
                             'ffe_postcursor',
                             'ffe_precursor',
                             'dfe_taps',
                             'normalize',
                             'regularization',
                             'reg_lambda'),
 'equalization_estimation_prbs': ('prbs_type',
                                  'signal',
                                  'constellation',
                                  'ffe_postcursor',
                                  'ffe_precursor',
                                  'dfe_taps',
                                  'normalize',
                                  'regularization',
                                  'reg_lambda',
                                  'prbs_full_scale',
                                  'bit_order_inv',
                                  'pn_inv_precoding',
                                  'gray_coded',
                                  'pn_inv_postmapping'),
 'eye_diagram': ('signal', 'osr_in', 'osr_diag', 'fs_value', 'quantization', 'logscale'),
 'ffe_dfe': ('input_signal', 'ffe_taps', 'dfe_taps', 'levels', 'osr', 'phase', 'zi_ffe', 'zi_dfe'),
 'get_levels': ('constellation', 'full_scale'),
 'least_squares': ('a_mat', 'b', 'regularization', 'reg_lambda'),
 'mapping': ('signal', 'constellation', 'full_scale', 'levels', 'pn_inv'),
 'mueller_muller_step': ('signal_chunk', 'reference_signal', 'pre_weight', 'post_weight', 'tol'),
 'prbs_checker': ('prbs_type', 'data_in', 'init_lock', 'loss_th', 'prbs_seq'),
 'prbs_checker_economy': ('prbs_type', 'data_in', 'loss_th'),
 'pulse_shape': ('signal', 'osr', 'span', 'pulse', 'beta', 'rj_sigma', 'zi'),
 'quantize': ('signal', 'total_bits', 'frac_bits', 'fix_point_type'),
 'rcos_pulse': ('osr', 'span', 'beta', 't'),
 'rect_pulse': ('osr', 'span', 't'),
 'rrc_pulse': ('osr', 'span', 'beta', 't'),
 'sinc_pulse': ('osr', 'span', 't'),
 'slicer': ('slicer_in_mat', 'levels'),
 'soft_ddlms_grad': ('input_vec', 'output_vec', 'levels', 'sigma', 'ffe_tap_idx', 'dfe_tap_idx', 'reference_vec'),
 'symbol2bin': ('symbol_mat', 'num_of_symbols', 'bit_order_inv', 'inv_msb', 'inv_lsb', 'pn_inv')}


# ---- code
def _same(v, d):
    if isinstance(d, tuple) and len(d) == 2 and d[0] == 'enum':
        return isinstance(v, enum.Enum) and v.name == d[1]
    if isinstance(d, tuple) and len(d) == 2 and d[0] == 'array':
        return isinstance(v, np.ndarray) and v.ndim == 1 and v.tolist() == d[1]
    if v is None or d is None or isinstance(d, (bool, str)) or isinstance(v, (bool, str)):
        return type(v) is type(d) and v == d
    return isinstance(v, (int, float)) and v == d


def omittable(fn, args, kw):
    """(number of trailing positional arguments, keyword names) that equal their documented default: a caller may leave them out."""
    table = DEFAULTS.get(getattr(fn, '__name__', None))
    if not table:
        return 0, []
    names = sorted(k for k, v in kw.items() if k in table and _same(v, table[k]))
    order = POSITION.get(fn.__name__, ())
    n = 0
    while n < len(args) and len(args) - 1 - n < len(order):
        k = order[len(args) - 1 - n]
        if k not in table or not _same(args[len(args) - 1 - n], table[k]):
            break
        n += 1
    return n, names
