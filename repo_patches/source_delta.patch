From c54a6e6cf0b852ca95562af75932093df6a57d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:26 +0000
Subject: [PATCH 01/46] fix: demapping(pn_inv=True) no longer negates the
 caller's signal in place

---
 CommDspy/rx/demapping.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/rx/demapping.py b/CommDspy/rx/demapping.py
index 706591c..24092c2 100644
--- a/CommDspy/rx/demapping.py
+++ b/CommDspy/rx/demapping.py
@@ -24,7 +24,7 @@ def demapping(signal, constellation, full_scale=False, pn_inv=False):
     # PN-inv
     # ==================================================================================================================
     if pn_inv:
-        signal *= -1
+        signal = -1 * signal
     # ==================================================================================================================
     # Converting symbols to indices, i.e. performing decoding
     # ==================================================================================================================
-- 
2.43.0


From 52920f9aaebb940b27063cd30e9bfb481f6a609f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:26 +0000
Subject: [PATCH 02/46] fix: block decoding with error_prob no longer
 overwrites the caller's received pattern

---
 CommDspy/misc/ml_decoding.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/CommDspy/misc/ml_decoding.py b/CommDspy/misc/ml_decoding.py
index 5772d5e..48128f4 100644
--- a/CommDspy/misc/ml_decoding.py
+++ b/CommDspy/misc/ml_decoding.py
@@ -15,7 +15,6 @@ def ml_decoding(permutations, codebook, pattern_block, error_prob):
         min_hamming = np.min(hamming, axis=0)
         not_codeword = min_hamming > 0
         correct_idx = np.argmin(hamming[:, not_codeword], axis=0)
-        pattern_block[not_codeword] = codebook[correct_idx]
         # ----------------------------------------------------------------------------------------------------------
         # Fixing the hamming matrix, filling p_err
         # ----------------------------------------------------------------------------------------------------------
-- 
2.43.0


From 34b79c7a430aeadff7fc7aa1d77151048c2c69d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:26 +0000
Subject: [PATCH 03/46] fix: Filter and FilterTII no longer truncate their
 output to integers for integer symbol chunks

---
 CommDspy/misc/help_classes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CommDspy/misc/help_classes.py b/CommDspy/misc/help_classes.py
index b07a6c1..517a65e 100644
--- a/CommDspy/misc/help_classes.py
+++ b/CommDspy/misc/help_classes.py
@@ -49,7 +49,7 @@ class Filter:
         return y
 
     def __call__(self, data_chunk):
-        y_vec = np.zeros_like(data_chunk)
+        y_vec = np.zeros_like(data_chunk, dtype=np.result_type(data_chunk, float))
         for ii, x in enumerate(data_chunk):
             y_vec[ii] = self._process(x)
         return y_vec
@@ -131,7 +131,7 @@ class FilterTII:
         return y
 
     def __call__(self, data_chunk):
-        y_vec = np.zeros_like(data_chunk)
+        y_vec = np.zeros_like(data_chunk, dtype=np.result_type(data_chunk, float))
         for ii, x in enumerate(data_chunk):
             y_vec[ii] = self._process(x)
         return y_vec
-- 
2.43.0


From e72bd00c21aee0b69b987f940004a9146db8f6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:26 +0000
Subject: [PATCH 04/46] fix: ffe_dfe keeps the full FFE memory for chunks
 shorter than the FFE

---
 CommDspy/rx/ffe_dfe_model.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/CommDspy/rx/ffe_dfe_model.py b/CommDspy/rx/ffe_dfe_model.py
index 2b2f73f..ad5cb08 100644
--- a/CommDspy/rx/ffe_dfe_model.py
+++ b/CommDspy/rx/ffe_dfe_model.py
@@ -69,14 +69,15 @@ def ffe_dfe(input_signal, ffe_taps=np.array([1]), dfe_taps=None, levels=None, os
         zi_ffe = np.zeros(ffe_len - 1)
     elif len(zi_ffe) == ffe_len:
         zi_ffe = zi_ffe[1:]
-    elif len(zi_ffe) != len(ffe_len) - 1:
+    elif len(zi_ffe) != ffe_len - 1:
         raise ValueError(f'zi_ffe is not in the same size as the FFE, length is {len(zi_ffe):d} instead of {ffe_len - 1:d}')
     # ==================================================================================================================
     # If we only have FFE and without DFE we can use convolution for speed
     # ==================================================================================================================
     if dfe_taps is None:
-        rx_ffe_out = signal.convolve(ffe_taps, np.concatenate([zi_ffe, input_signal]), mode='valid')
-        return rx_ffe_out, input_signal[-1*ffe_len:]
+        ffe_in     = np.concatenate([zi_ffe, input_signal])
+        rx_ffe_out = signal.convolve(ffe_taps, ffe_in, mode='valid')
+        return rx_ffe_out, ffe_in[-1*ffe_len:]
     # ==================================================================================================================
     # In case we hae DFE taps we need to make a decision, therefore we can not use convolution
     # ==================================================================================================================
-- 
2.43.0


From c3881c1ad8a8fd37fc6e7dd6a47872b83dd4838f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:26 +0000
Subject: [PATCH 05/46] fix: prbs_generator returns a seed which is not a view
 of the returned sequence

---
 CommDspy/tx/prbs_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/tx/prbs_generator.py b/CommDspy/tx/prbs_generator.py
index e225c38..5be3375 100644
--- a/CommDspy/tx/prbs_generator.py
+++ b/CommDspy/tx/prbs_generator.py
@@ -34,5 +34,5 @@ def prbs_generator(poly_coeff, init_seed, output_length):
     # Organizing
     # ==================================================================================================================
     sequence = multiple_bin[:output_length]
-    seed = np.flip(sequence[-1*poly_size:]) if output_length >= len(seed) else seed
+    seed = np.flip(sequence[-1*poly_size:]).copy() if output_length >= len(seed) else seed
     return sequence, seed
-- 
2.43.0


From d62332f2db5f15831a3419c66b72da17dc10ea58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:26 +0000
Subject: [PATCH 06/46] fix: symbol2bin accepts a single symbol together with
 the bit manipulation flags

---
 CommDspy/rx/symbol2bin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/rx/symbol2bin.py b/CommDspy/rx/symbol2bin.py
index 2112404..cffdf52 100644
--- a/CommDspy/rx/symbol2bin.py
+++ b/CommDspy/rx/symbol2bin.py
@@ -25,7 +25,7 @@ def symbol2bin(symbol_mat, num_of_symbols, bit_order_inv=False, inv_msb=False, i
     # ==================================================================================================================
     # Converting to binary representation
     # ==================================================================================================================
-    symbol_mat_binary = np.squeeze(((symbol_vec[:, None] & (1 << np.arange(0, bits_per_symbol, 1))) > 0).astype(int))
+    symbol_mat_binary = ((symbol_vec[:, None] & (1 << np.arange(0, bits_per_symbol, 1))) > 0).astype(int)
     # ==================================================================================================================
     # Bit manipulations according to the flags
     # ==================================================================================================================
-- 
2.43.0


From bd51e2bc8a71df9d7b3b749a3829f80a324c91d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:26 +0000
Subject: [PATCH 07/46] fix: pulse_shape(pulse='imp') works, its memory has the
 length of the pulse

---
 CommDspy/channel/pulse_shaping.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/CommDspy/channel/pulse_shaping.py b/CommDspy/channel/pulse_shaping.py
index b9855b4..ba285fe 100644
--- a/CommDspy/channel/pulse_shaping.py
+++ b/CommDspy/channel/pulse_shaping.py
@@ -20,7 +20,7 @@ def pulse_shape(signal, osr=1, span=1, pulse='rect', beta=0.5, rj_sigma=0.0, zi=
                      Example: for Baud rate of 53.125 [GHz] UI is ~18.8[psec]. Using rj_sigma=0.05 [UI] means:
                       rj_sigma = 0.05*18.8e-12 = 0.94e-12 = 940[fsec]
     :param zi: memory for the pulse shaping. If None, assuming reset, i.e. all '0' memory. MUST be with length of:
-               'osr' * 'span' * 2 - 1
+               'osr' * 'span' * 2 - 1 ('imp' has no memory, length of 0)
     :return: the signal after the pulse shaping. This function simulated an ideal channel of ch[n] = delta[n] without
     noise. This is not a practical use-case but more of a feature to gain insight. For practical channels use the
     channel sub-package
@@ -31,9 +31,9 @@ def pulse_shape(signal, osr=1, span=1, pulse='rect', beta=0.5, rj_sigma=0.0, zi=
     sig_ups   = upsample(signal, osr)
     pulse_vec = _get_pulse(pulse, osr, span, beta)
     if zi is None:
-        zi = np.zeros(osr * span * 2 - 1)
-    elif len(zi) != osr * span * 2 - 1:
-        raise ValueError(f'Memory length {len(zi):d} doesnt match the requested pulse, length should be {osr*span*2-1:d}')
+        zi = np.zeros(len(pulse_vec) - 1)
+    elif len(zi) != len(pulse_vec) - 1:
+        raise ValueError(f'Memory length {len(zi):d} doesnt match the requested pulse, length should be {len(pulse_vec)-1:d}')
     # ==================================================================================================================
     # Convolving
     # ==================================================================================================================
-- 
2.43.0


From 00e9a8080eba0cd3fc7daaa2c3ce98fccf2cd5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:26 +0000
Subject: [PATCH 08/46] fix: decoding_differential inverts coding_differential
 for framed (2D) patterns

---
 CommDspy/rx/decoding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/rx/decoding.py b/CommDspy/rx/decoding.py
index dfa4e95..c3af6c4 100644
--- a/CommDspy/rx/decoding.py
+++ b/CommDspy/rx/decoding.py
@@ -44,7 +44,7 @@ def decoding_differential(pattern, constellation=ConstellationEnum.PAM4):
                    --------------------------------
         """
     lvl_num = len(get_levels(constellation))
-    return (lfilter([1, -1], [1], pattern.astype(float)) % lvl_num).astype(int)
+    return np.reshape(lfilter([1, -1], [1], np.reshape(pattern, -1).astype(float)) % lvl_num, pattern.shape).astype(int)
 
 def decoding_manchester(pattern):
     """
-- 
2.43.0


From 2e8e2e083f547593cbb6c6adad6d87589919ecb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:26 +0000
Subject: [PATCH 09/46] fix: decoding_mlt3 accepts framed (2D) patterns, as
 coding_mlt3 does

---
 CommDspy/rx/decoding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/rx/decoding.py b/CommDspy/rx/decoding.py
index c3af6c4..bc40ec2 100644
--- a/CommDspy/rx/decoding.py
+++ b/CommDspy/rx/decoding.py
@@ -118,7 +118,7 @@ def decoding_mlt3(pattern):
     # ==================================================================================================================
     # Decoding
     # ==================================================================================================================
-    if pattern[0] == 1:
+    if pattern_flat[0] == 1:
         transitions = np.concatenate((np.array([1]), np.abs(np.diff(pattern_flat))))
     else:
         transitions = np.concatenate((np.array([0]), np.abs(np.diff(pattern_flat))))
-- 
2.43.0


From ffe394b2ffb43ccf141276aa754cdc80acec482a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:26 +0000
Subject: [PATCH 10/46] fix: decoding_bipolar flags a leading run of -1 marks
 as -0.5

---
 CommDspy/rx/decoding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/rx/decoding.py b/CommDspy/rx/decoding.py
index bc40ec2..6287f3b 100644
--- a/CommDspy/rx/decoding.py
+++ b/CommDspy/rx/decoding.py
@@ -104,7 +104,7 @@ def decoding_bipolar(pattern, error_detection=False):
         decoded_pattern = np.abs(pattern - 1).astype(float)
         idx_vec         = np.arange(0, len(decoded_pattern))
         mark_location   = idx_vec[pattern_flat != 0]
-        mark_change     = np.concatenate((np.array([1]), np.diff(pattern_flat[mark_location])))
+        mark_change     = np.concatenate((pattern_flat[mark_location[:1]], np.diff(pattern_flat[mark_location])))
         running_sign    = 1
         for ii, mark in enumerate(mark_change):
             if mark == 0:
-- 
2.43.0


From 2b5b28dcb96caa4524799ab3b45323950a5a2e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:26 +0000
Subject: [PATCH 11/46] fix: the trellis keeps the FIR taps of inputs without
 feedback when another input has feedback

---
 CommDspy/misc/ml_decoding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/misc/ml_decoding.py b/CommDspy/misc/ml_decoding.py
index 48128f4..a147d2b 100644
--- a/CommDspy/misc/ml_decoding.py
+++ b/CommDspy/misc/ml_decoding.py
@@ -142,7 +142,7 @@ def create_trellis_bin(G, states, inputs, memory_cumsum, feedback=None, use_feed
                 else:
                     for jj in range(n_out):
                         G_kk_jj = G[kk][jj]
-                        if len(G_kk_jj) == 1 or use_feedback[kk, jj] == 0:
+                        if len(G_kk_jj) == 1 or (kk in feedback.keys() and use_feedback[kk, jj] == 0):
                             # no memory, either systematic or always 0 output, depending on G_ii_jj[0] value.
                             # 1 - systematic ; 0 - zero output
                             c_vec[jj] = c_vec[jj] ^ (in_k * G_kk_jj[0])
-- 
2.43.0


From 687e84842e84076bc9e7f73dfa887749916e892d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:26 +0000
Subject: [PATCH 12/46] fix: quantize applies negative fractional bits as
 documented

---
 CommDspy/rx/quantiztion.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CommDspy/rx/quantiztion.py b/CommDspy/rx/quantiztion.py
index 10116e8..a3dbbc0 100644
--- a/CommDspy/rx/quantiztion.py
+++ b/CommDspy/rx/quantiztion.py
@@ -42,9 +42,9 @@ def quantize(signal, total_bits, frac_bits=0, fix_point_type='unsigned'):
         levels = levels[1:] - 2**(total_bits - 1)
     elif fix_point_type != 'u':
         raise ValueError('Type used is not defined, please read function description')
-    if frac_bits > 0:
+    if frac_bits != 0:
         levels = levels.astype(float)
-        levels /= 2**frac_bits
+        levels /= 2.0**frac_bits
     # ==================================================================================================================
     # Applying Quantization
     # ==================================================================================================================
-- 
2.43.0


From 8ed6e5894c20bc320293d8e4af2a0807e20fa3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:26 +0000
Subject: [PATCH 13/46] fix: channel_estimation_prbs applies pn_inv_postcoding
 to the reference

---
 CommDspy/channel_estimation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/channel_estimation.py b/CommDspy/channel_estimation.py
index e6ed182..8f99157 100644
--- a/CommDspy/channel_estimation.py
+++ b/CommDspy/channel_estimation.py
@@ -57,7 +57,7 @@ def channel_estimation_prbs(prbs_type, signal, constellation,
         return True, 0, [0]
     prbs_seq, _ = prbs_generator(poly_coeff, init_seed, 2 * prbs_len)
     prbsq       = bin2symbol(prbs_seq, len(levels), bit_order_inv, False, False, pn_inv_precoding)
-    prbs_coded  = mapping(prbsq, constellation, prbs_full_scale) if not gray_coding else mapping(coding_gray(prbsq, constellation), constellation, prbs_full_scale)
+    prbs_coded  = mapping(prbsq, constellation, prbs_full_scale, pn_inv=pn_inv_postcoding) if not gray_coding else mapping(coding_gray(prbsq, constellation), constellation, prbs_full_scale, pn_inv=pn_inv_postcoding)
     # ==================================================================================================================
     # Locking on the pattern beginning
     # ==================================================================================================================
-- 
2.43.0


From 6d62a325ac618109b78ec7c9a3b266886a468bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:51 +0000
Subject: [PATCH 14/46] fix: the Viterbi decoder selects survivors by the
 accumulated metric of existing transitions

---
 CommDspy/rx/decoding.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/CommDspy/rx/decoding.py b/CommDspy/rx/decoding.py
index 6287f3b..9c3e933 100644
--- a/CommDspy/rx/decoding.py
+++ b/CommDspy/rx/decoding.py
@@ -298,6 +298,7 @@ def decoding_conv_viterbi(pattern, G, tb_len, feedback=None, use_feedback=None,
     # Starting the viterbi algorithm block by block
     # ==================================================================================================================
     output_tensor_reshape = np.reshape(trellis_obj.output_tensor, [-1, n_out])
+    valid_transition      = np.all(trellis_obj.output_tensor >= 0, axis=2)
     in_state_int_vec      = np.arange(trellis_obj.num_states)
     for ii in range(pattern_block.shape[0]):
         # ----------------------------------------------------------------------------------------------------------
@@ -314,11 +315,10 @@ def decoding_conv_viterbi(pattern, G, tb_len, feedback=None, use_feedback=None,
             # ----------------------------------------------------------------------------------------------------------
             # Noting the best for this step, the return path and the input for the best per state
             # ----------------------------------------------------------------------------------------------------------
-            hamming_state[:, chunk_idx] = np.argmin(step_hamming, axis=0)
-            if chunk_idx > 0:
-                hamming_dist[:, chunk_idx] = np.min(step_hamming, axis=0) + hamming_dist[hamming_state[:,chunk_idx], chunk_idx-1]
-            else:
-                hamming_dist[:, chunk_idx] = np.min(step_hamming, axis=0)
+            path_hamming = step_hamming + hamming_dist[:, chunk_idx-1][:, None] if chunk_idx > 0 else step_hamming
+            path_hamming = np.where(valid_transition, path_hamming, np.iinfo(int).max)
+            hamming_state[:, chunk_idx] = np.argmin(path_hamming, axis=0)
+            hamming_dist[:, chunk_idx]  = np.min(path_hamming, axis=0)
             decoded_mat_prev = decoded_mat.copy()
             out_state = hamming_state[in_state_int_vec, chunk_idx]
             if chunk_idx > 0:
-- 
2.43.0


From 3412223a9641c872c52e7a2ba26637cff5b4c7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:51 +0000
Subject: [PATCH 15/46] fix: coding_conv evaluates the feedback over F2, long
 patterns no longer overflow the real valued recursion

---
 CommDspy/tx/coding.py | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/CommDspy/tx/coding.py b/CommDspy/tx/coding.py
index c9a3b3b..af8ed9b 100644
--- a/CommDspy/tx/coding.py
+++ b/CommDspy/tx/coding.py
@@ -315,7 +315,10 @@ def coding_conv(pattern, G, feedback=None, use_feedback=None, zi=None):
             # ------------------------------------------------------------------------------------------------------
             # Passing the data through the transfer function
             # ------------------------------------------------------------------------------------------------------
-            out_ii_jj     = lfilter(G_ii_jj.astype(float), iir_vals, in_pattern)
+            if type(iir_vals) == float:
+                out_ii_jj = lfilter(G_ii_jj.astype(float), iir_vals, in_pattern)
+            else:  # over F2, the real valued recursion grows without bounds and loses the parity
+                out_ii_jj = _lfilter_f2(G_ii_jj, feedback[ii], in_pattern)
             out_vals[jj] += out_ii_jj
     # ==================================================================================================================
     # Setting the data to binary
@@ -325,3 +328,28 @@ def coding_conv(pattern, G, feedback=None, use_feedback=None, zi=None):
     # Reshaping back to the output
     # ==================================================================================================================
     return np.reshape(out_vals.T, -1)
+
+
+# //////////////////////////////////////////////////////////////////////////////////////////////////////////////////////
+# Auxiliary
+# //////////////////////////////////////////////////////////////////////////////////////////////////////////////////////
+def _lfilter_f2(b, a, x):
+    """
+    :param b: binary feed-forward polynomial
+    :param a: binary feedback polynomial, a[0] must be 1
+    :param x: binary input
+    :return: x filtered by b / a over F2 (binary field)
+    """
+    taps_b = np.flatnonzero(b)
+    taps_a = 1 + np.flatnonzero(a[1:])
+    y = np.zeros(len(x), dtype=int)
+    for nn in range(len(x)):
+        val = 0
+        for tap in taps_b:
+            if tap <= nn:
+                val ^= int(x[nn - tap])
+        for tap in taps_a:
+            if tap <= nn:
+                val ^= int(y[nn - tap])
+        y[nn] = val
+    return y
-- 
2.43.0


From 10a92b9470938ad1dbd95477a0873d4218e343b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:32 +0000
Subject: [PATCH 16/46] fix: equalization_estimation: keep FFE cursor aligned
 when dfe_taps > ffe_postcursor, and drop rows past the end of the signal

---
 CommDspy/equalization_estimation.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/CommDspy/equalization_estimation.py b/CommDspy/equalization_estimation.py
index 333bc4b..2600c6c 100644
--- a/CommDspy/equalization_estimation.py
+++ b/CommDspy/equalization_estimation.py
@@ -60,7 +60,6 @@ def equalization_estimation_prbs(prbs_type, signal, constellation,
     init_seed       = np.array([1] * prbs_type.value)
     prbs_len        = 2 ** len(init_seed) - 1
     levels          = get_levels(constellation, prbs_full_scale)
-    postcursor_num  = np.max((ffe_postcursor, dfe_taps))
     # ==================================================================================================================
     # Getting reference PRBS and coding
     # ==================================================================================================================
@@ -74,7 +73,7 @@ def equalization_estimation_prbs(prbs_type, signal, constellation,
     # Locking on the pattern beginning and then shifting to account for post-cursors
     # ==================================================================================================================
     prbs_coded_aligned, _ = lock_pattern_to_signal(prbs_coded, signal)
-    shift_idx = np.concatenate([np.arange(postcursor_num, prbs_len, 1), np.arange(0, postcursor_num, 1)])
+    shift_idx = np.concatenate([np.arange(ffe_postcursor, prbs_len, 1), np.arange(0, ffe_postcursor, 1)])
     prbs_coded_shift = prbs_coded_aligned[shift_idx]
     # ==================================================================================================================
     # Averaging to help remove noise from captured signal
@@ -118,8 +117,7 @@ def equalization_estimation(reference_signal, signal, ffe_postcursor=23, ffe_pre
     # ==================================================================================================================
     # Local variables
     # ==================================================================================================================
-    postcursor_num = np.max((ffe_postcursor, dfe_taps))
-    chop_len = postcursor_num + ffe_precursor + 1
+    chop_len = ffe_postcursor + dfe_taps + ffe_precursor + 1
     mat_row_num    = len(signal) - chop_len
     # ==================================================================================================================
     # Building the FFE part of the matrix in the Ax=b system
-- 
2.43.0


From 1f12793b3d41a3299e0a1adbcb31bcbd3b074a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:32 +0000
Subject: [PATCH 17/46] fix: equalization_estimation: normalize without DFE
 taps

---
 CommDspy/equalization_estimation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/equalization_estimation.py b/CommDspy/equalization_estimation.py
index 2600c6c..051741d 100644
--- a/CommDspy/equalization_estimation.py
+++ b/CommDspy/equalization_estimation.py
@@ -155,7 +155,7 @@ def equalization_estimation(reference_signal, signal, ffe_postcursor=23, ffe_pre
     err       = sig_out - skewed_ref
     mse = 10 * np.log10(power(err) / power(sig_out))
     if normalize:
-        return ffe / dig_gain, dfe / dig_gain, dig_gain, ls_err, mse
+        return ffe / dig_gain, dfe / dig_gain if dfe is not None else None, dig_gain, ls_err, mse
     else:
         return ffe, dfe, 1, ls_err, mse
 
-- 
2.43.0


From 77cf66b2ff8d69597a4c5fb554fcaba03e1dac8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:23 +0000
Subject: [PATCH 18/46] fix: quantize default fix_point_type is one of the
 accepted types

---
 CommDspy/rx/quantiztion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/rx/quantiztion.py b/CommDspy/rx/quantiztion.py
index a3dbbc0..648d743 100644
--- a/CommDspy/rx/quantiztion.py
+++ b/CommDspy/rx/quantiztion.py
@@ -1,7 +1,7 @@
 import numpy as np
 from CommDspy.rx.slicer import slicer
 
-def quantize(signal, total_bits, frac_bits=0, fix_point_type='unsigned'):
+def quantize(signal, total_bits, frac_bits=0, fix_point_type='u'):
     """
     :param signal: Input signal to perform quantization on
     :param total_bits: Total bit used in the quantization
-- 
2.43.0


From eda36024c78e37d7d907e210b01d33d070382cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:12 +0000
Subject: [PATCH 19/46] fix: Trellis: read the memories in input order,
 whatever the key order of G

---
 CommDspy/misc/ml_decoding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/misc/ml_decoding.py b/CommDspy/misc/ml_decoding.py
index a147d2b..f2e4c30 100644
--- a/CommDspy/misc/ml_decoding.py
+++ b/CommDspy/misc/ml_decoding.py
@@ -60,7 +60,7 @@ class Trellis:
         # ==============================================================================================================
         memory = []  # hold the number of memory registers in the coding scheme
         constraint_len = 0
-        for ii in G:
+        for ii in range(self.n_in):
             memory.append(G[ii].shape[1] - 1)
             if G[ii].shape[1] > constraint_len:
                 constraint_len = G[ii].shape[1]
-- 
2.43.0


From ba02e22a3ab3ca7cd6d769a6acb3dd29ae8dae7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:08 +0000
Subject: [PATCH 20/46] fix: the Viterbi decoder keeps parallel transitions of
 inputs without memory

---
 CommDspy/rx/decoding.py | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/CommDspy/rx/decoding.py b/CommDspy/rx/decoding.py
index 9c3e933..a0cd417 100644
--- a/CommDspy/rx/decoding.py
+++ b/CommDspy/rx/decoding.py
@@ -297,9 +297,10 @@ def decoding_conv_viterbi(pattern, G, tb_len, feedback=None, use_feedback=None,
     # ==================================================================================================================
     # Starting the viterbi algorithm block by block
     # ==================================================================================================================
-    output_tensor_reshape = np.reshape(trellis_obj.output_tensor, [-1, n_out])
-    valid_transition      = np.all(trellis_obj.output_tensor >= 0, axis=2)
-    in_state_int_vec      = np.arange(trellis_obj.num_states)
+    # branch_from[ii], branch_in[ii] and branch_out[ii] hold the out state, input and output of every transition into state
+    # ii. Inputs without memory give parallel transitions between the same two states
+    branch_from, branch_in, branch_out = _incoming_branches(trellis_obj)
+    in_state_int_vec = np.arange(trellis_obj.num_states)
     for ii in range(pattern_block.shape[0]):
         # ----------------------------------------------------------------------------------------------------------
         # Forward propagating - Computing the accumulative hamming along each path, selecting the best
@@ -309,22 +310,19 @@ def decoding_conv_viterbi(pattern, G, tb_len, feedback=None, use_feedback=None,
             # ----------------------------------------------------------------------------------------------------------
             # For each chunk compute all possible hamming distances
             # ----------------------------------------------------------------------------------------------------------
-            # step_hamming[ii,jj] = hamming from state ii to state jj, computing for all transitions in one step
-            step_hamming, _ = hamming(output_tensor_reshape, pattern_chunk[None, :])
-            step_hamming    = np.reshape(step_hamming, trellis_obj.output_tensor.shape[:-1])
+            # path_hamming[ii,jj] = accumulated hamming of the jj-th transition into state ii
+            path_hamming = np.sum(branch_out != pattern_chunk, axis=2)
+            if chunk_idx > 0:
+                path_hamming = path_hamming + hamming_dist[branch_from, chunk_idx-1]
             # ----------------------------------------------------------------------------------------------------------
             # Noting the best for this step, the return path and the input for the best per state
             # ----------------------------------------------------------------------------------------------------------
-            path_hamming = step_hamming + hamming_dist[:, chunk_idx-1][:, None] if chunk_idx > 0 else step_hamming
-            path_hamming = np.where(valid_transition, path_hamming, np.iinfo(int).max)
-            hamming_state[:, chunk_idx] = np.argmin(path_hamming, axis=0)
-            hamming_dist[:, chunk_idx]  = np.min(path_hamming, axis=0)
+            best_branch = np.argmin(path_hamming, axis=1)
+            out_state   = branch_from[in_state_int_vec, best_branch]
+            hamming_state[:, chunk_idx] = out_state
+            hamming_dist[:, chunk_idx]  = np.min(path_hamming, axis=1)
             decoded_mat_prev = decoded_mat.copy()
-            out_state = hamming_state[in_state_int_vec, chunk_idx]
-            if chunk_idx > 0:
-                decoded_mat[in_state_int_vec, :n_in*(chunk_idx+1)] = np.concatenate([decoded_mat_prev[out_state, :n_in * chunk_idx], trellis_obj.input_tensor[out_state, in_state_int_vec]], axis=1)
-            else:
-                decoded_mat[in_state_int_vec, :n_in*(chunk_idx+1)] = trellis_obj.input_tensor[out_state, in_state_int_vec]
+            decoded_mat[in_state_int_vec, :n_in*(chunk_idx+1)] = np.concatenate([decoded_mat_prev[out_state, :n_in * chunk_idx], branch_in[in_state_int_vec, best_branch]], axis=1)
         # ----------------------------------------------------------------------------------------------------------
         # Backward propagating - Going along the selected path, recovering the input
         # ----------------------------------------------------------------------------------------------------------
@@ -344,6 +342,13 @@ def decoding_conv_viterbi(pattern, G, tb_len, feedback=None, use_feedback=None,
 # //////////////////////////////////////////////////////////////////////////////////////////////////////////////////////
 # Auxiliary
 # //////////////////////////////////////////////////////////////////////////////////////////////////////////////////////
+def _incoming_branches(trellis_obj):
+    state_idx = {tuple(state): ii for ii, state in enumerate(trellis_obj.states)}
+    branches  = [[] for _ in trellis_obj.states]
+    for (input_vec, state), (output_vec, next_state) in trellis_obj.trellis.items():
+        branches[state_idx[next_state]].append((state_idx[state], input_vec, output_vec))
+    return tuple(np.array([[branch[ii] for branch in branch_vec] for branch_vec in branches]) for ii in range(3))
+
 def _trunc_reshape(input_vec, block_len):
     if len(input_vec) % block_len != 0:
         residual  = len(input_vec) % block_len
-- 
2.43.0


From a8f4f9f875fbe0596aa5ad77cb6b26eb99e75dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:48 +0000
Subject: [PATCH 21/46] fix: raised cosine pulse where 2*beta*t misses its
 removable singularity by rounding

---
 CommDspy/channel/pulse_shaping.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/CommDspy/channel/pulse_shaping.py b/CommDspy/channel/pulse_shaping.py
index ba285fe..a1ce962 100644
--- a/CommDspy/channel/pulse_shaping.py
+++ b/CommDspy/channel/pulse_shaping.py
@@ -93,13 +93,13 @@ def rcos_pulse(osr, span, beta, t=None):
     # ==================================================================================================================
     if t is None:
         t = _time_vec_pulse(osr, span)
-    tneq = t[np.abs(2*beta*t) != 1]
+    neqb = ~np.isclose(np.abs(2*beta*t), 1, rtol=0)  # 2*beta*t may miss 1 by rounding, e.g. t=10/19, beta=0.95
     # ==================================================================================================================
     # Creating the pulse
     # ==================================================================================================================
-    pulse = np.zeros_like(t)
-    pulse[np.abs(2*beta*t) == 1] = np.pi/4 * np.sinc(1/(2*beta))
-    pulse[np.abs(2*beta*t) != 1] = np.sinc(tneq) * np.cos(np.pi * beta * tneq) / (1 - (2 * beta * tneq) ** 2)
+    pulse = np.sinc(t)
+    pulse[~neqb] *= np.pi/4
+    pulse[neqb]  *= np.cos(np.pi * beta * t[neqb]) / (1 - (2 * beta * t[neqb]) ** 2)
     return pulse
 
 def rrc_pulse(osr, span, beta, t=None):
-- 
2.43.0


From e111885299051deb1574b24d2fb9b6d38b61b16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:48 +0000
Subject: [PATCH 22/46] fix: raised cosine interpolation divided by zero at its
 removable singularity

---
 CommDspy/digital_delay.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/CommDspy/digital_delay.py b/CommDspy/digital_delay.py
index 2f9c19c..c8673e5 100644
--- a/CommDspy/digital_delay.py
+++ b/CommDspy/digital_delay.py
@@ -1,5 +1,6 @@
 import numpy as np
 from scipy.signal import lfilter
+from CommDspy.channel.pulse_shaping import rcos_pulse
 
 def dig_delay_lagrange_coeffs(n, alpha, forward=True):
     """
@@ -81,7 +82,7 @@ def dig_delay_rcos_coeffs(n, alpha, forward=True, beta=0.5):
     # ==================================================================================================================
     # Creating the filter parameters
     # ==================================================================================================================
-    return np.sinc(ii_vec - alpha) * np.cos(np.pi * beta * (ii_vec - alpha)) / (1 - (2 * beta * (ii_vec - alpha)) ** 2)
+    return rcos_pulse(None, None, beta, t=ii_vec - alpha)
 
 def digital_oversample(signal_vec, osr, order, method, beta=0):
     """
-- 
2.43.0


From 96533d57f73ae248693831a1851c0c9dccee7996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:44 +0000
Subject: [PATCH 23/46] fix: buffer clips exactly the incomplete last row

---
 CommDspy/auxiliary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/auxiliary.py b/CommDspy/auxiliary.py
index e87e5c5..80f6364 100644
--- a/CommDspy/auxiliary.py
+++ b/CommDspy/auxiliary.py
@@ -115,7 +115,7 @@ def buffer(signal, length, overlap=0, delay=0, clip=False):
     rows_to_remove = np.sum(np.any(np.array([np.arange(full_len - length - max(overlap, 0), full_len)]).T - rows == 0, axis=1))
     if rows_to_remove > 0:
         matrix = matrix[:-1*rows_to_remove]
-    if clip and matrix[-1,:] not in linalg.hankel(signal, signal[::-1][:length])[:-1]:
+    if clip and rows[len(matrix)-1] + length > delay + len(signal):
         matrix = matrix[:-1]
     return matrix
 
-- 
2.43.0


From f9b11f66ca6ddcf1fc2e80a9f8dada31b2d48e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:36 +0000
Subject: [PATCH 24/46] fix: Lagrange delay filters of order 21 and above
 overflowed the integer denominator

---
 CommDspy/digital_delay.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/digital_delay.py b/CommDspy/digital_delay.py
index c8673e5..67f7f13 100644
--- a/CommDspy/digital_delay.py
+++ b/CommDspy/digital_delay.py
@@ -43,7 +43,7 @@ def dig_delay_lagrange_coeffs(n, alpha, forward=True):
     # Creating the nominator component vector and the denominator component matrix
     # ==================================================================================================================
     nom_mat = np.tile(alpha - ii_vec, [len(ii_vec), 1])
-    den_mat = ii_vec - ii_vec[:, None]
+    den_mat = (ii_vec - ii_vec[:, None]).astype(float)
     # ==================================================================================================================
     # Creating the filter parameters
     # ==================================================================================================================
-- 
2.43.0


From 5662a062ed8e032b83d4b9645c0b4deae5d0bfc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:36 +0000
Subject: [PATCH 25/46] fix: pattern lock could pick a repetition past the
 pattern end and return a truncated pattern

---
 CommDspy/rx/lock_pattern.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CommDspy/rx/lock_pattern.py b/CommDspy/rx/lock_pattern.py
index 0f688b1..683ada3 100644
--- a/CommDspy/rx/lock_pattern.py
+++ b/CommDspy/rx/lock_pattern.py
@@ -19,7 +19,7 @@ def lock_pattern_to_signal_binary(pattern, signal):
     # Correlating the NRZ sequences to find the alignment
     # ==================================================================================================================
     xcorr = correlate(pattern_nrz, signal_nrz, mode='valid')
-    start_idx = np.argmax(xcorr)
+    start_idx = np.argmax(xcorr[:pattern_len])
     return pattern_rep[start_idx:start_idx + pattern_len], xcorr
 
 def lock_pattern_to_signal(pattern, signal):
@@ -39,6 +39,6 @@ def lock_pattern_to_signal(pattern, signal):
     # Correlating the NRZ sequences to find the alignment
     # ==================================================================================================================
     xcorr = correlate(pattern_rep, signal_part, mode='valid')
-    start_idx = np.argmax(xcorr)
+    start_idx = np.argmax(xcorr[:pattern_len])
     # start_idx = np.argmax(np.abs(xcorr))
     return pattern_rep[start_idx:start_idx + pattern_len], xcorr
\ No newline at end of file
-- 
2.43.0


From c72f760928645b49c3faf326940b5e4d33c6d6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:36 +0000
Subject: [PATCH 26/46] fix: pattern lock of bits and samples held in narrow
 integers wrapped around

---
 CommDspy/rx/lock_pattern.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/CommDspy/rx/lock_pattern.py b/CommDspy/rx/lock_pattern.py
index 683ada3..a11b373 100644
--- a/CommDspy/rx/lock_pattern.py
+++ b/CommDspy/rx/lock_pattern.py
@@ -13,8 +13,8 @@ def lock_pattern_to_signal_binary(pattern, signal):
     pattern_len = len(pattern)
     data_len    = len(signal)
     pattern_rep = np.tile(pattern, 2)
-    pattern_nrz = pattern_rep * 2 - 1
-    signal_nrz = signal[:np.min((pattern_len, data_len))] * 2 - 1
+    pattern_nrz = pattern_rep.astype(np.result_type(pattern, int)) * 2 - 1
+    signal_nrz = signal[:np.min((pattern_len, data_len))].astype(np.result_type(signal, int)) * 2 - 1
     # ==================================================================================================================
     # Correlating the NRZ sequences to find the alignment
     # ==================================================================================================================
@@ -35,6 +35,7 @@ def lock_pattern_to_signal(pattern, signal):
     data_len    = len(signal)
     pattern_rep = np.tile(pattern, 2)
     signal_part = signal[:np.min((pattern_len, data_len))]
+    signal_part = signal_part.astype(np.result_type(signal, int))
     # ==================================================================================================================
     # Correlating the NRZ sequences to find the alignment
     # ==================================================================================================================
-- 
2.43.0


From 30582f916921252b12ea45f40814c3348817af8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:36 +0000
Subject: [PATCH 27/46] fix: line decoders wrapped around on symbols held in
 unsigned integers

---
 CommDspy/rx/decoding.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/CommDspy/rx/decoding.py b/CommDspy/rx/decoding.py
index a0cd417..d715c6f 100644
--- a/CommDspy/rx/decoding.py
+++ b/CommDspy/rx/decoding.py
@@ -69,6 +69,7 @@ def decoding_manchester(pattern):
     # ==================================================================================================================
     # Local variables
     # ==================================================================================================================
+    pattern = pattern.astype(np.result_type(pattern, int))
     pattern_shape = pattern.shape
     new_pattern_shape = list(pattern_shape)
     new_pattern_shape[-1]= int(new_pattern_shape[-1] / 2)
@@ -94,6 +95,7 @@ def decoding_bipolar(pattern, error_detection=False):
         neighboring '0' values as well.
     :return:
     """
+    pattern = pattern.astype(np.result_type(pattern, int))
     if not error_detection:
         return np.abs(pattern - 1)
     else:
@@ -114,6 +116,7 @@ def decoding_bipolar(pattern, error_detection=False):
         return decoded_pattern
 
 def decoding_mlt3(pattern):
+    pattern = pattern.astype(np.result_type(pattern, int))
     pattern_flat = np.reshape(pattern, -1)
     # ==================================================================================================================
     # Decoding
@@ -132,6 +135,7 @@ def decoding_differential_manchester(pattern):
     # ==================================================================================================================
     # Local variables
     # ==================================================================================================================
+    pattern = pattern.astype(np.result_type(pattern, int))
     pattern_shape         = pattern.shape
     new_pattern_shape     = list(pattern_shape)
     new_pattern_shape[-1] = int(new_pattern_shape[-1] / 2)
-- 
2.43.0


From 3adb9b19743c976752709a837c2903ae63be7a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:36 +0000
Subject: [PATCH 28/46] fix: slicer distances of samples and levels held in
 narrow integers wrapped around

---
 CommDspy/rx/slicer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/CommDspy/rx/slicer.py b/CommDspy/rx/slicer.py
index 1fdd862..bdc4d99 100644
--- a/CommDspy/rx/slicer.py
+++ b/CommDspy/rx/slicer.py
@@ -27,6 +27,7 @@ def slicer(slicer_in_mat, levels=None):
     # Creating the diff matrix --> col vec minus row vec --> matrix
     # ==================================================================================================================
     slicer_in_vec = np.reshape(slicer_in_mat, [-1, 1])
+    slicer_in_vec = slicer_in_vec.astype(np.result_type(slicer_in_vec, float))
     diff_mat = abs(slicer_in_vec - levels)
     # ==================================================================================================================
     # Slicing
-- 
2.43.0


From 9cd54e78424c0bf51031ea88551fb726151d6021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:36 +0000
Subject: [PATCH 29/46] fix: LMS errors of samples held in narrow integers
 wrapped around

---
 CommDspy/rx/least_mean_squares.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/CommDspy/rx/least_mean_squares.py b/CommDspy/rx/least_mean_squares.py
index a980318..065bf6f 100644
--- a/CommDspy/rx/least_mean_squares.py
+++ b/CommDspy/rx/least_mean_squares.py
@@ -49,6 +49,7 @@ def ddlms_grad(input_vec, output_vec, levels, ffe_tap_idx=np.array([]), dfe_tap_
     # ==================================================================================================================
     # Local variables
     # ==================================================================================================================
+    output_vec = output_vec.astype(np.result_type(output_vec, float))
     if reference_vec is None:
         reference_vec = slicer(output_vec, levels)
     elif len(reference_vec) != len(output_vec):
@@ -143,6 +144,7 @@ def soft_ddlms_grad(input_vec, output_vec, levels, sigma=1, ffe_tap_idx=np.array
     # ==================================================================================================================
     # Local variables
     # ==================================================================================================================
+    output_vec = output_vec.astype(np.result_type(output_vec, float))
     if reference_vec is None:
         reference_vec = slicer(output_vec, levels)
     p             = 1 / len(levels)
-- 
2.43.0


From af0c769a1d3aac5d9477138852dc06ca76df01b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:36 +0000
Subject: [PATCH 30/46] fix: Mueller-Muller correlations of samples held in
 narrow integers wrapped around

---
 CommDspy/rx/clock_data_recovery.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/CommDspy/rx/clock_data_recovery.py b/CommDspy/rx/clock_data_recovery.py
index dbfb80f..9d2ea79 100644
--- a/CommDspy/rx/clock_data_recovery.py
+++ b/CommDspy/rx/clock_data_recovery.py
@@ -18,6 +18,7 @@ def mueller_muller_step(signal_chunk, reference_signal, pre_weight=1, post_weigh
     # ==================================================================================================================
     # Local variables
     # ==================================================================================================================
+    signal_chunk   = signal_chunk.astype(np.result_type(signal_chunk, float))
     reference_pre  = reference_signal[1:]
     reference_post = reference_signal[:-1]
     # ==================================================================================================================
-- 
2.43.0


From 3798b487aba9025bf835a553bf7808e83a01adf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:36 +0000
Subject: [PATCH 31/46] fix: demapping could not invert symbols held in
 unsigned integers

---
 CommDspy/rx/demapping.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/rx/demapping.py b/CommDspy/rx/demapping.py
index 24092c2..59f5795 100644
--- a/CommDspy/rx/demapping.py
+++ b/CommDspy/rx/demapping.py
@@ -24,7 +24,7 @@ def demapping(signal, constellation, full_scale=False, pn_inv=False):
     # PN-inv
     # ==================================================================================================================
     if pn_inv:
-        signal = -1 * signal
+        signal = -1 * signal.astype(np.result_type(signal, int))
     # ==================================================================================================================
     # Converting symbols to indices, i.e. performing decoding
     # ==================================================================================================================
-- 
2.43.0


From cd1b17d64a21665843d56684bc28d3b875226494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:36 +0000
Subject: [PATCH 32/46] fix: power of samples held in narrow integers wrapped
 around

---
 CommDspy/auxiliary.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/CommDspy/auxiliary.py b/CommDspy/auxiliary.py
index 80f6364..d28d983 100644
--- a/CommDspy/auxiliary.py
+++ b/CommDspy/auxiliary.py
@@ -65,6 +65,7 @@ def power(signal):
     :param signal:
     :return: Computes the mean power of the signal
     """
+    signal = np.asarray(signal, dtype=np.result_type(signal, float))
     return np.mean(signal * np.conj(signal))
 
 def rms(signal):
-- 
2.43.0


From 2f0c66dba3366c38179276eb99b31521dab1fa0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:36 +0000
Subject: [PATCH 33/46] fix: hamming distance of words held in unsigned
 integers wrapped around

---
 CommDspy/auxiliary.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/CommDspy/auxiliary.py b/CommDspy/auxiliary.py
index d28d983..65c013d 100644
--- a/CommDspy/auxiliary.py
+++ b/CommDspy/auxiliary.py
@@ -154,6 +154,7 @@ def hamming(pattern_block, codebook):
              num array where the (ii,jj) location hold for the hamming distance of pattern ii from codeword jj. Also
              returns the minimal hamming distance index for each block in the pattern
     """
+    codebook    = codebook.astype(np.result_type(codebook, int))
     hamming     = np.sum(np.abs(codebook[:, None, :] - pattern_block[None, :, :]), axis=2)
     decoded_idx = np.argmin(hamming, axis=0)
     return hamming, decoded_idx
-- 
2.43.0


From fd1efa2a71aae286ff1db3dd2ab5c8cc9dd02f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:25 +0000
Subject: [PATCH 34/46] fix: Gray coding of two level constellations returned
 the caller's own buffer

---
 CommDspy/tx/coding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/tx/coding.py b/CommDspy/tx/coding.py
index af8ed9b..92d9fbd 100644
--- a/CommDspy/tx/coding.py
+++ b/CommDspy/tx/coding.py
@@ -26,7 +26,7 @@ def coding_gray(pattern, constellation=ConstellationEnum.PAM4):
         levels = get_gray_level_vec(level_num)
         return levels[pattern]
     else:
-        return pattern
+        return np.array(pattern)
 
 def coding_differential(pattern, constellation=ConstellationEnum.PAM4):
     """
-- 
2.43.0


From be4b3a36664b07d8e790ad35d2dd4044cf485b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:50 +0000
Subject: [PATCH 35/46] fix: regularised least squares fitted an intercept and
 dropped it

---
 CommDspy/misc/least_squares.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CommDspy/misc/least_squares.py b/CommDspy/misc/least_squares.py
index a4afd80..8119052 100644
--- a/CommDspy/misc/least_squares.py
+++ b/CommDspy/misc/least_squares.py
@@ -43,7 +43,7 @@ def ridge_regression(a_mat, b, reg_lambda):
     :return: performing least squares with L2 regularization, sklearn implementation
              ||y - Xw||^2_2 + reg_lambda * ||w||^2_2
     """
-    model = Ridge(alpha=reg_lambda)
+    model = Ridge(alpha=reg_lambda, fit_intercept=False)
     model.fit(a_mat, b)
     x_hat = model.coef_
     ssr   = np.sum(np.power(a_mat @ x_hat - b, 2))
@@ -57,7 +57,7 @@ def lasso_regression(a_mat, b, reg_lambda):
     :return: performing least squares with L1 regularization, sklearn implementation
              ||y - Xw||^2_2 + reg_lambda * ||w||_1
     """
-    model = Lasso(alpha=reg_lambda)
+    model = Lasso(alpha=reg_lambda, fit_intercept=False)
     model.fit(a_mat, b)
     x_hat = model.coef_
     ssr   = np.sum(np.power(a_mat @ x_hat - b, 2))
-- 
2.43.0


From 3f728ca2e19b5892d39b944689487737d02becf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:57 +0000
Subject: [PATCH 36/46] fix: root raised cosine pulse with zero roll-off
 divided by zero instead of being a sinc

---
 CommDspy/channel/pulse_shaping.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/CommDspy/channel/pulse_shaping.py b/CommDspy/channel/pulse_shaping.py
index a1ce962..6d6caba 100644
--- a/CommDspy/channel/pulse_shaping.py
+++ b/CommDspy/channel/pulse_shaping.py
@@ -116,14 +116,14 @@ def rrc_pulse(osr, span, beta, t=None):
     if t is None:
         t = _time_vec_pulse(osr, span)
     neq0 = ~np.isclose(t, np.zeros_like(t))
-    neqb = ~np.isclose(np.abs(t) - 1/(4*beta), np.zeros_like(t))
+    neqb = ~np.isclose(np.abs(4*beta*t), 1, rtol=0)
     # ==================================================================================================================
     # Creating the pulse
     # ==================================================================================================================
     pulse = np.zeros_like(t)
     pulse[~neq0] = 1 + beta * (4/np.pi - 1)
-    pulse[~neqb] = beta / np.sqrt(2) * ((1 + 2/np.pi)*np.sin(np.pi/(4*beta)) + (1 - 2/np.pi)*np.cos(np.pi/(4*beta)))
-    pulse[neqb & neq0] = 4 * beta / np.pi * (np.cos((1 + beta) * np.pi * t[neqb & neq0]) + (np.sin((1 - beta)*np.pi*t[neqb & neq0]) / (4*beta*t[neqb & neq0]))) / (1 - (4*beta*t[neqb & neq0])**2)
+    pulse[~neqb] = beta / np.sqrt(2) * ((1 + 2/np.pi)*np.sin(np.pi*np.abs(t[~neqb])) + (1 - 2/np.pi)*np.cos(np.pi*np.abs(t[~neqb])))  # |t| = 1/(4*beta)
+    pulse[neqb & neq0] = (4 * beta * t[neqb & neq0] * np.cos((1 + beta) * np.pi * t[neqb & neq0]) + np.sin((1 - beta)*np.pi*t[neqb & neq0])) / (np.pi*t[neqb & neq0]*(1 - (4*beta*t[neqb & neq0])**2))
     return pulse
 
 def _time_vec_pulse(osr, span):
-- 
2.43.0


From 594319bf2f51dfae0d060c5012b2ae765ff6a58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:57 +0000
Subject: [PATCH 37/46] fix: root raised cosine pulse on an integer time grid
 was truncated to integers

---
 CommDspy/channel/pulse_shaping.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/channel/pulse_shaping.py b/CommDspy/channel/pulse_shaping.py
index 6d6caba..4572a16 100644
--- a/CommDspy/channel/pulse_shaping.py
+++ b/CommDspy/channel/pulse_shaping.py
@@ -120,7 +120,7 @@ def rrc_pulse(osr, span, beta, t=None):
     # ==================================================================================================================
     # Creating the pulse
     # ==================================================================================================================
-    pulse = np.zeros_like(t)
+    pulse = np.zeros_like(t, dtype=float)
     pulse[~neq0] = 1 + beta * (4/np.pi - 1)
     pulse[~neqb] = beta / np.sqrt(2) * ((1 + 2/np.pi)*np.sin(np.pi*np.abs(t[~neqb])) + (1 - 2/np.pi)*np.cos(np.pi*np.abs(t[~neqb])))  # |t| = 1/(4*beta)
     pulse[neqb & neq0] = (4 * beta * t[neqb & neq0] * np.cos((1 + beta) * np.pi * t[neqb & neq0]) + np.sin((1 - beta)*np.pi*t[neqb & neq0])) / (np.pi*t[neqb & neq0]*(1 - (4*beta*t[neqb & neq0])**2))
-- 
2.43.0


From 7901a439c0b4736c5a73368f451c42f14d66fc65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:12 +0000
Subject: [PATCH 38/46] fix: patterns holding 0 or 1 and one other value passed
 for binary

---
 CommDspy/misc/help_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/misc/help_functions.py b/CommDspy/misc/help_functions.py
index 5e98490..cdcc3c7 100644
--- a/CommDspy/misc/help_functions.py
+++ b/CommDspy/misc/help_functions.py
@@ -4,7 +4,7 @@ def check_binary(pattern):
     data_in = np.unique(pattern)
     if len(data_in) == 1 and (0 not in data_in and 1 not in data_in):
         raise ValueError('Data in is not binary, please consider other encoding methods')
-    elif len(data_in) == 2 and (0 not in data_in and 1 not in data_in):
+    elif len(data_in) == 2 and (0 not in data_in or 1 not in data_in):
         raise ValueError('Data in is not binary, please consider other encoding methods')
     elif len(data_in) > 2:
         raise ValueError('Data in is not binary, please consider other encoding methods')
-- 
2.43.0


From 7bd5508b72b5d8c163b791ab2bebf257ab6529cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:12 +0000
Subject: [PATCH 39/46] fix: a DFE memory of the wrong length raised TypeError
 while building the ValueError message

---
 CommDspy/rx/ffe_dfe_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/rx/ffe_dfe_model.py b/CommDspy/rx/ffe_dfe_model.py
index ad5cb08..46393eb 100644
--- a/CommDspy/rx/ffe_dfe_model.py
+++ b/CommDspy/rx/ffe_dfe_model.py
@@ -64,7 +64,7 @@ def ffe_dfe(input_signal, ffe_taps=np.array([1]), dfe_taps=None, levels=None, os
         elif len(zi_dfe) == len(dfe_taps):
             dfe_memory = zi_dfe
         else:
-            raise ValueError(f'zi_dfe is not in the same size as the DFE, length is {len(zi_dfe):d} instead of {dfe_taps:d}')
+            raise ValueError(f'zi_dfe is not in the same size as the DFE, length is {len(zi_dfe):d} instead of {len(dfe_taps):d}')
     if zi_ffe is None:
         zi_ffe = np.zeros(ffe_len - 1)
     elif len(zi_ffe) == ffe_len:
-- 
2.43.0


From 8a6dae6fa9ee2565e3936eb13847645c03ba8165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:43 +0000
Subject: [PATCH 40/46] fix: decoding_bipolar with error detection accepts
 framed (2D) patterns, as coding_bipolar does

---
 CommDspy/rx/decoding.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CommDspy/rx/decoding.py b/CommDspy/rx/decoding.py
index d715c6f..ba05ce0 100644
--- a/CommDspy/rx/decoding.py
+++ b/CommDspy/rx/decoding.py
@@ -103,7 +103,7 @@ def decoding_bipolar(pattern, error_detection=False):
         # Detecting the mark locations in the pattern
         # ----------------------------------------------------------------------------------------------------------
         pattern_flat    = np.reshape(pattern - 1, -1)
-        decoded_pattern = np.abs(pattern - 1).astype(float)
+        decoded_pattern = np.abs(pattern_flat).astype(float)
         idx_vec         = np.arange(0, len(decoded_pattern))
         mark_location   = idx_vec[pattern_flat != 0]
         mark_change     = np.concatenate((pattern_flat[mark_location[:1]], np.diff(pattern_flat[mark_location])))
@@ -113,7 +113,7 @@ def decoding_bipolar(pattern, error_detection=False):
                 decoded_pattern[mark_location[ii]] = decoded_pattern[mark_location[ii-1]] = 0.5 * np.sign(running_sign)
             else:
                 running_sign = np.sign(mark)
-        return decoded_pattern
+        return np.reshape(decoded_pattern, pattern.shape)
 
 def decoding_mlt3(pattern):
     pattern = pattern.astype(np.result_type(pattern, int))
-- 
2.43.0


From e80cce3e50e979fd5547c3234998f9afd8d1f19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:32 +0000
Subject: [PATCH 41/46] fix: Lagrange delay filters of order 0 raised instead
 of being the single tap 1

---
 CommDspy/digital_delay.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CommDspy/digital_delay.py b/CommDspy/digital_delay.py
index 67f7f13..482e935 100644
--- a/CommDspy/digital_delay.py
+++ b/CommDspy/digital_delay.py
@@ -48,8 +48,8 @@ def dig_delay_lagrange_coeffs(n, alpha, forward=True):
     # Creating the filter parameters
     # ==================================================================================================================
     indexing_mat = (1 - np.eye(len(ii_vec))).astype(bool)
-    nom_vec = np.prod(np.reshape(nom_mat[indexing_mat], [-1, len(ii_vec)-1]), axis=1)
-    den_vec = np.prod(np.reshape(den_mat.T[indexing_mat], [-1, len(ii_vec) - 1]), axis=1)
+    nom_vec = np.prod(np.reshape(nom_mat[indexing_mat], [len(ii_vec), len(ii_vec)-1]), axis=1)
+    den_vec = np.prod(np.reshape(den_mat.T[indexing_mat], [len(ii_vec), len(ii_vec) - 1]), axis=1)
 
     return nom_vec / den_vec
 
-- 
2.43.0


From aec644932cbc764c4f283186289f6ef1488cb611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:27 +0000
Subject: [PATCH 42/46] fix: soft_ddlms_grad accepted a reference of another
 length than the outputs

---
 CommDspy/rx/least_mean_squares.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/CommDspy/rx/least_mean_squares.py b/CommDspy/rx/least_mean_squares.py
index 065bf6f..874c43f 100644
--- a/CommDspy/rx/least_mean_squares.py
+++ b/CommDspy/rx/least_mean_squares.py
@@ -147,6 +147,9 @@ def soft_ddlms_grad(input_vec, output_vec, levels, sigma=1, ffe_tap_idx=np.array
     output_vec = output_vec.astype(np.result_type(output_vec, float))
     if reference_vec is None:
         reference_vec = slicer(output_vec, levels)
+    elif len(reference_vec) != len(output_vec):
+        raise ValueError(
+            f'Length of the reference vector ({len(reference_vec):d} is different than the input vector ({len(output_vec)}')
     p             = 1 / len(levels)
     # ==================================================================================================================
     # Computing the loss
-- 
2.43.0


From 0ca560fae5bbf3ae87ea6cfe77885f57b7a23cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:13 +0000
Subject: [PATCH 43/46] fix: dig_delay_rcos_coeffs is documented with the
 package but was not exported

---
 CommDspy/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/__init__.py b/CommDspy/__init__.py
index d626d26..a7add92 100644
--- a/CommDspy/__init__.py
+++ b/CommDspy/__init__.py
@@ -5,5 +5,5 @@ from CommDspy.constants import PrbsEnum, ConstellationEnum, EYE_COLORMAP
 from CommDspy.auxiliary import get_polynomial, get_levels, power, rms, buffer, upsample, get_gray_level_vec, zoh, get_bin_perm, hamming, bin2uint, uint2bin
 from CommDspy.channel_estimation import channel_estimation_prbs
 from CommDspy.equalization_estimation import equalization_estimation_prbs, equalization_estimation
-from CommDspy.digital_delay import dig_delay_lagrange_coeffs, dig_delay_sinc_coeffs, digital_oversample
+from CommDspy.digital_delay import dig_delay_lagrange_coeffs, dig_delay_sinc_coeffs, dig_delay_rcos_coeffs, digital_oversample
 from CommDspy.eye_diagram import eye_diagram
-- 
2.43.0


From 595488bf87cbf00121fee7964853a642f6697299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:26 +0000
Subject: [PATCH 44/46] fix: awgn on a block of one sample returned NaN (its
 power was estimated with n-1)

---
 CommDspy/channel/additive_noise_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/channel/additive_noise_functions.py b/CommDspy/channel/additive_noise_functions.py
index 2ce9319..8081d5d 100644
--- a/CommDspy/channel/additive_noise_functions.py
+++ b/CommDspy/channel/additive_noise_functions.py
@@ -19,7 +19,7 @@ def awgn(signal, snr):
     # ==================================================================================================================
     # Local variables
     # ==================================================================================================================
-    sig_power_hat = np.var(signal, ddof=1) + np.mean(signal) ** 2
+    sig_power_hat = np.var(signal) + np.mean(signal) ** 2
     # ==================================================================================================================
     # Computing AWGN std to match the SNR
     # ==================================================================================================================
-- 
2.43.0


From d6a8dcfe70c653e8f4184e725bdd72af5f8b088f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:38 +0000
Subject: [PATCH 45/46] fix: PrbsIterator shared its seed with the caller,
 whose in-place edits changed the sequence

---
 CommDspy/tx/prbs_iterator.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/CommDspy/tx/prbs_iterator.py b/CommDspy/tx/prbs_iterator.py
index f0f4bb0..c786152 100644
--- a/CommDspy/tx/prbs_iterator.py
+++ b/CommDspy/tx/prbs_iterator.py
@@ -13,8 +13,8 @@ class PrbsIterator:
     init_seed should have the same length as "poly_coeff"
     """
     def __init__(self, poly_coeff, init_seed):
-        self.poly_coeff = poly_coeff
-        self.seed = init_seed
+        self.poly_coeff = np.array(poly_coeff)
+        self.seed = np.array(init_seed)
         self.seed_prev = None
 
     def __iter__(self):
@@ -27,7 +27,7 @@ class PrbsIterator:
         return single_patt
 
     def get_seed(self):
-        return self.seed
+        return self.seed.copy()
 
     def get_prev_seed(self):
-        return self.seed_prev
+        return None if self.seed_prev is None else self.seed_prev.copy()
-- 
2.43.0


From 382aad1fc882eda4d29aba484e2636bf2b51b8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:58 +0000
Subject: [PATCH 46/46] fix: bin2symbol took 16385 (and other counts just above
 a large power of two) for the power of two

---
 CommDspy/tx/bin2symbol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/tx/bin2symbol.py b/CommDspy/tx/bin2symbol.py
index d1260c3..eee20af 100644
--- a/CommDspy/tx/bin2symbol.py
+++ b/CommDspy/tx/bin2symbol.py
@@ -26,7 +26,7 @@ def bin2symbol(bin_mat, num_of_symbols, bit_order_inv=False, inv_msb=False, inv_
     # ==================================================================================================================
     # Taking into consideration the bits_per_symbol
     # ==================================================================================================================
-    if num_of_symbols > 2 and np.isclose(bits_per_symbol, int(bits_per_symbol)):  # "complete" power of 2 constellation
+    if num_of_symbols > 2 and num_of_symbols == 2 ** int(bits_per_symbol):  # "complete" power of 2 constellation
         bits_per_symbol = int(bits_per_symbol)
         trimmed_bin = bin_vec[:-1*trim].copy() if trim > 0 else bin_vec.copy()
         trimmed_bin = np.reshape(trimmed_bin, [-1, bits_per_symbol])
-- 
2.43.0

