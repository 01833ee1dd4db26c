From 17999bae0aae97e7c724ba3c7c01193c7d4fa200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:20 +0000
Subject: [PATCH 01/23] fix: compute the number of tensor elements without int
 overflow

---
 src/runtime/tensor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/tensor.cpp b/src/runtime/tensor.cpp
index 3fb2b37..1224443 100644
--- a/src/runtime/tensor.cpp
+++ b/src/runtime/tensor.cpp
@@ -72,7 +72,7 @@ void dw::Tensor::init(const dw::Shape& shape) {
     m_descriptor->strides = calculateStrides(shape);
     m_descriptor->total   = std::accumulate(shape.begin(),
                                             shape.end(),
-                                            1,
+                                            size_t{1},
                                             std::multiplies<>());
 }
 
-- 
2.43.0


From 55621282c411bc3da012b7b3febe90a942f33cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:20 +0000
Subject: [PATCH 02/23] fix: reject negative dimensions and overflowing
 products in Tensor::reshape

---
 src/runtime/tensor.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/runtime/tensor.cpp b/src/runtime/tensor.cpp
index 1224443..a461118 100644
--- a/src/runtime/tensor.cpp
+++ b/src/runtime/tensor.cpp
@@ -95,7 +95,11 @@ void dw::Tensor::allocate(const dw::Shape& shape) {
 }
 
 void dw::Tensor::reshape(const dw::Shape& shape) {
-    auto shape_total_size = std::accumulate(shape.begin(), shape.end(), 1, std::multiplies<int>());
+    bool have_negative_dim = std::any_of(shape.begin(), shape.end(),
+                                         [](int dim) { return dim < 0; });
+    DeepWorks_Assert(!have_negative_dim && "Cannot reshape tensor to negative dimensions");
+
+    auto shape_total_size = std::accumulate(shape.begin(), shape.end(), size_t{1}, std::multiplies<>());
     DeepWorks_Assert(shape_total_size == m_descriptor->total && "Total sizes must be equal");
 
     m_descriptor->shape = shape;
-- 
2.43.0


From ac49363cbd55d364d6774d3bdeb2931cd98879b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:20 +0000
Subject: [PATCH 03/23] fix: use the Glorot bound sqrt(6 / (fan_in + fan_out))
 in xavierUniform

---
 src/initializers.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/initializers.cpp b/src/initializers.cpp
index 0c0fe59..baa4595 100644
--- a/src/initializers.cpp
+++ b/src/initializers.cpp
@@ -20,7 +20,7 @@ void deepworks::initializer::xavierUniform(deepworks::Tensor& tensor) {
     DeepWorks_Assert(shape.size() >= 1);
     int inp_features = shape.size() == 2 ? shape[0] : tensor.total() / shape[0];
     int out_features = shape.size() == 2 ? shape[1] : shape[0];
-    auto a = std::sqrt(6.0) / (inp_features + out_features);
+    auto a = std::sqrt(6.0 / (inp_features + out_features));
     std::uniform_real_distribution<float> dist(-a, a);
     std::generate_n(tensor.data(), tensor.total(), [&dist, &gen]() { return dist(gen); });
 }
-- 
2.43.0


From 10399f6d5b782bd7ed6fa62eb740544aadc15a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:01 +0000
Subject: [PATCH 04/23] fix: pad max pooling windows with the lowest float, not
 the smallest positive one

---
 src/runtime/cpu/kernels/kernels.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/cpu/kernels/kernels.cpp b/src/runtime/cpu/kernels/kernels.cpp
index 99d56d5..222f85f 100644
--- a/src/runtime/cpu/kernels/kernels.cpp
+++ b/src/runtime/cpu/kernels/kernels.cpp
@@ -220,7 +220,7 @@ void deepworks::CPUMaxPoolingForward(const Tensor& input,
     std::array<int, 2> dilation{1, 1};
     for (size_t i = 0; i < batch * c; i++) {
         Tensor src_plane({1, 1, h_in, w_in}, input.data() + i * input_offset);
-        im2col(src_plane, im2col_buf, kernel, padding, stride, dilation, std::numeric_limits<float>::min());
+        im2col(src_plane, im2col_buf, kernel, padding, stride, dilation, std::numeric_limits<float>::lowest());
 
         ConstMatrix col_mat{im2col_buf.data(), rows, cols};
         for (int j = 0; j < cols; j++) {
-- 
2.43.0


From 5fd3ceb2659dc9bfd0d3173f0015071ad2f76c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:01 +0000
Subject: [PATCH 05/23] fix: reallocate the BatchNorm2D buffers when the input
 shape changes

---
 src/runtime/cpu/layers/cpubatchnorm2d.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/runtime/cpu/layers/cpubatchnorm2d.cpp b/src/runtime/cpu/layers/cpubatchnorm2d.cpp
index 7ce9272..a2b71c2 100644
--- a/src/runtime/cpu/layers/cpubatchnorm2d.cpp
+++ b/src/runtime/cpu/layers/cpubatchnorm2d.cpp
@@ -49,12 +49,10 @@ void deepworks::cpu::CPUBatchNorm2D::forward(const std::vector<deepworks::Tensor
     int H = in_shape[2];
     int W = in_shape[3];
 
-    if (nhwc_in.empty()) {
-        nhwc_in  = Tensor({N, H, W, C});
-        nhwc_out = Tensor({N, H, W, C});
-    }
-
-    if (m_input_centered.empty()) {
+    // If the input shape changes (e.g. another batch_size) need to create new buffers
+    if (nhwc_in.shape() != Shape{N, H, W, C}) {
+        nhwc_in          = Tensor({N, H, W, C});
+        nhwc_out         = Tensor({N, H, W, C});
         m_input_centered = Tensor({N * H * W, C});
     }
 
-- 
2.43.0


From c8829bc2898b4950af33ea747a989c688422679f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:33 +0000
Subject: [PATCH 06/23] fix: accumulate the input gradient in BatchNorm2D
 backward like the other layers

---
 src/runtime/cpu/layers/cpubatchnorm2d.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/runtime/cpu/layers/cpubatchnorm2d.cpp b/src/runtime/cpu/layers/cpubatchnorm2d.cpp
index a2b71c2..9716173 100644
--- a/src/runtime/cpu/layers/cpubatchnorm2d.cpp
+++ b/src/runtime/cpu/layers/cpubatchnorm2d.cpp
@@ -83,8 +83,8 @@ void deepworks::cpu::CPUBatchNorm2D::backward(const std::vector<deepworks::Tenso
     int C = grad_output_shape[1];
     deepworks::utils::NCHW2NHWC(grad_output, nhwc_out);
 
-    // NB: CPUBatchNorm1DInputGrad expects that input_grad is already initiliazed.
-    deepworks::initializer::zeros(nhwc_in);
+    // NB: CPUBatchNorm1DInputGrad adds to input_grad.
+    deepworks::utils::NCHW2NHWC(grad_input, nhwc_in);
     deepworks::CPUBatchNorm1DInputGrad({m_input_centered.data(), static_cast<int>(grad_output.total()) / C, C},
                                        {m_std.data(),C},
                                        {nhwc_out.data(), static_cast<int>(grad_output.total()) / C, C},
-- 
2.43.0


From ebd537f54cf80076ba3c8fe2580246e0c57fd6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:33 +0000
Subject: [PATCH 07/23] fix: reallocate the Dropout mask when the input shape
 changes

---
 src/runtime/cpu/layers/cpudropout.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/runtime/cpu/layers/cpudropout.cpp b/src/runtime/cpu/layers/cpudropout.cpp
index 6bc9117..43a6bbd 100644
--- a/src/runtime/cpu/layers/cpudropout.cpp
+++ b/src/runtime/cpu/layers/cpudropout.cpp
@@ -24,6 +24,10 @@ void deepworks::cpu::CPUDropout::forward(const std::vector<deepworks::Tensor>& i
 
     if (m_info.params().at("mask").is_trainable()) {
         float p = m_info.impl().attrs["p"].get<float>();
+        // If the input shape changes (e.g. another batch_size) need to create a new mask
+        if (m_mask.shape() != input.shape()) {
+            m_mask = Tensor(input.shape());
+        }
         deepworks::CPUDropoutForward(input, m_mask, output, p);
     } else {
         input.copyTo(output);
-- 
2.43.0


From 033f3effaae3ad8af0161913eb065bd1afe9e490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:33 +0000
Subject: [PATCH 08/23] fix: scale the Dropout gradient by 1 / (1 - p) like the
 forward pass

---
 src/runtime/cpu/kernels/kernels.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/cpu/kernels/kernels.cpp b/src/runtime/cpu/kernels/kernels.cpp
index 222f85f..4687e35 100644
--- a/src/runtime/cpu/kernels/kernels.cpp
+++ b/src/runtime/cpu/kernels/kernels.cpp
@@ -360,7 +360,7 @@ void deepworks::CPUDropoutInputGrad(const Tensor& mask,
     ConstVector m_vec(mask.data(), mask.total());
     Vector      gi_vec(grad_input.data(), grad_input.total());
 
-    gi_vec += static_cast<M>((m_vec.array() >= p).select(go_vec.array(), 0.f));
+    gi_vec += static_cast<M>((m_vec.array() >= p).select(go_vec.array(), 0.f) / (1 - p));
 }
 
 void deepworks::CPUGlobalAvgPoolingForward(const Tensor& input, Tensor& output) {
-- 
2.43.0


From af1c657b8bfc54c2e048519364a341eb174053f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:27 +0000
Subject: [PATCH 09/23] fix: pass the gradient through Dropout out of train
 mode

---
 src/runtime/cpu/layers/cpudropout.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/runtime/cpu/layers/cpudropout.cpp b/src/runtime/cpu/layers/cpudropout.cpp
index 43a6bbd..7d1c747 100644
--- a/src/runtime/cpu/layers/cpudropout.cpp
+++ b/src/runtime/cpu/layers/cpudropout.cpp
@@ -41,6 +41,11 @@ void deepworks::cpu::CPUDropout::backward(const std::vector<deepworks::Tensor>&
     const auto& grad_output = grad_outputs.front();
           auto& grad_input  = grad_inputs.front();
 
-    float p = m_info.impl().attrs["p"].get<float>();
-    deepworks::CPUDropoutInputGrad(m_mask, grad_output, grad_input, p);
+    if (m_info.params().at("mask").is_trainable()) {
+        float p = m_info.impl().attrs["p"].get<float>();
+        deepworks::CPUDropoutInputGrad(m_mask, grad_output, grad_input, p);
+    } else {
+        // NB: Forward is identity out of train mode.
+        deepworks::CPUAddForward(grad_input, grad_output, grad_input);
+    }
 }
-- 
2.43.0


From 445b8be6a9275b8de13add9037917409b154dc53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:18 +0000
Subject: [PATCH 10/23] fix: report a missing image file instead of closing a
 null FILE

---
 src/io/image_reader.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/io/image_reader.cpp b/src/io/image_reader.cpp
index 75474c6..b44fc44 100644
--- a/src/io/image_reader.cpp
+++ b/src/io/image_reader.cpp
@@ -30,7 +30,6 @@ void ReadJpegFile(std::string_view path, deepworks::Tensor& out_tensor) {
     FILE *infile = fopen(path.data(), "rb");
 
     if (!infile) {
-        fclose(infile);
         DeepWorks_Throw() << "can't open file: " << path;
     }
 
@@ -101,7 +100,6 @@ void ReadPngFile(std::string_view path, deepworks::Tensor& out_tensor) {
 #ifdef HAVE_PNG
     FILE *infile = fopen(path.data(), "rb");
     if (!infile) {
-        fclose(infile);
         DeepWorks_Throw() << "can't open file: " << path;
     }
 
-- 
2.43.0


From c3bbc00f1e2a831cdbb14cb889e3efe4634ca748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:18 +0000
Subject: [PATCH 11/23] fix: open exactly the path the string_view names in
 ReadImage

---
 src/io/image_reader.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/io/image_reader.cpp b/src/io/image_reader.cpp
index b44fc44..c0862a0 100644
--- a/src/io/image_reader.cpp
+++ b/src/io/image_reader.cpp
@@ -1,5 +1,6 @@
 #include <stdexcept>
 #include <sstream>
+#include <string>
 
 #include <deepworks/tensor.hpp>
 #include <deepworks/utils/assert.hpp>
@@ -27,7 +28,7 @@ void ReadJpegFile(std::string_view path, deepworks::Tensor& out_tensor) {
 #ifdef HAVE_JPEG
     struct jpeg_decompress_struct cinfo{};
     struct jpeg_error_mgr err{};
-    FILE *infile = fopen(path.data(), "rb");
+    FILE *infile = fopen(std::string(path).c_str(), "rb");
 
     if (!infile) {
         DeepWorks_Throw() << "can't open file: " << path;
@@ -98,7 +99,7 @@ void ReadJpegFile(std::string_view path, deepworks::Tensor& out_tensor) {
 
 void ReadPngFile(std::string_view path, deepworks::Tensor& out_tensor) {
 #ifdef HAVE_PNG
-    FILE *infile = fopen(path.data(), "rb");
+    FILE *infile = fopen(std::string(path).c_str(), "rb");
     if (!infile) {
         DeepWorks_Throw() << "can't open file: " << path;
     }
-- 
2.43.0


From c23d10e8269ea0fc294c5d93d9ab18c987b4d5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:18 +0000
Subject: [PATCH 12/23] fix: read PNG samples of any bit depth as one byte each

---
 src/io/image_reader.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/io/image_reader.cpp b/src/io/image_reader.cpp
index c0862a0..0fe5617 100644
--- a/src/io/image_reader.cpp
+++ b/src/io/image_reader.cpp
@@ -130,6 +130,14 @@ void ReadPngFile(std::string_view path, deepworks::Tensor& out_tensor) {
         int height = static_cast<int>(png_get_image_height(png_ptr, info_ptr));
         int channels = static_cast<int>(png_get_channels(png_ptr, info_ptr));
 
+        // NB: Samples are read as one byte each.
+        auto bit_depth = png_get_bit_depth(png_ptr, info_ptr);
+        if (bit_depth == 16) {
+            png_set_strip_16(png_ptr);
+        } else if (bit_depth < 8) {
+            png_set_packing(png_ptr);
+        }
+
         png_read_update_info(png_ptr, info_ptr);
         if (out_tensor.empty()) {
             out_tensor.allocate(deepworks::Shape{height, width, channels});
-- 
2.43.0


From 9cc9dd27f01d9d1de2e50523b4d4afb5fbc9740a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:18 +0000
Subject: [PATCH 13/23] fix: release the rows of a PNG image whose decoding
 fails

---
 src/io/image_reader.cpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/io/image_reader.cpp b/src/io/image_reader.cpp
index 0fe5617..47b845d 100644
--- a/src/io/image_reader.cpp
+++ b/src/io/image_reader.cpp
@@ -14,6 +14,7 @@
 #endif
 
 #include <algorithm> // std::copy_n
+#include <vector>
 
 namespace {
 bool IsPngFile(std::string_view path) {
@@ -104,7 +105,9 @@ void ReadPngFile(std::string_view path, deepworks::Tensor& out_tensor) {
         DeepWorks_Throw() << "can't open file: " << path;
     }
 
-    png_bytep*  row_pointers = nullptr;
+    // NB: Declared here to be released if the decoder reports an error.
+    std::vector<png_byte>  pixels;
+    std::vector<png_bytep> row_pointers;
     png_structp png_ptr{};
     png_infop   info_ptr{};
     try {
@@ -146,29 +149,26 @@ void ReadPngFile(std::string_view path, deepworks::Tensor& out_tensor) {
         }
 
         deepworks::Tensor::Type *dst_data = out_tensor.data();
+        const size_t row_bytes = png_get_rowbytes(png_ptr, info_ptr);
+        pixels.resize(row_bytes * height);
+        row_pointers.resize(height);
+        for (int y = 0; y < height; y++) {
+            row_pointers[y] = pixels.data() + y * row_bytes;
+        }
         /* read file */
         DeepWorks_Assert(!setjmp(png_jmpbuf(png_ptr)) && "Error during read image");
 
-        row_pointers = (png_bytep *) malloc(sizeof(png_bytep) * height);
-        for (int y = 0; y < height; y++) {
-            row_pointers[y] = (png_byte *) malloc(png_get_rowbytes(png_ptr, info_ptr));
-        }
-        png_read_image(png_ptr, row_pointers);
+        png_read_image(png_ptr, row_pointers.data());
         // it's works if we have default hwc layout for tensor
         const size_t elements_per_h_channel = width * channels;
         for (int h = 0; h < height; ++h) {
             std::copy_n(row_pointers[h], elements_per_h_channel, &dst_data[h * elements_per_h_channel]);
         }
-        for (int y = 0; y < height; y++) {
-            free(row_pointers[y]);
-        }
     } catch (...) {
-        free(row_pointers);
         fclose(infile);
         png_destroy_read_struct(&png_ptr, &info_ptr, NULL);
         throw;
     }
-    free(row_pointers);
     fclose(infile);
     png_destroy_read_struct(&png_ptr, &info_ptr, NULL);
 #else
-- 
2.43.0


From 1a69fae8327cb10236422f5ead9e8971c41bb54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:16 +0000
Subject: [PATCH 14/23] fix: report a JPEG decoder error as an exception
 instead of terminating the process

---
 src/io/image_reader.cpp | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/io/image_reader.cpp b/src/io/image_reader.cpp
index 47b845d..eff4960 100644
--- a/src/io/image_reader.cpp
+++ b/src/io/image_reader.cpp
@@ -6,6 +6,8 @@
 #include <deepworks/utils/assert.hpp>
 
 #ifdef HAVE_JPEG
+#include <csetjmp>
+#include <cstdio>
 #include <jpeglib.h>
 #endif
 
@@ -25,10 +27,22 @@ bool IsJpegFile(std::string_view path) {
     return path.substr(path.find_last_of(".") + 1) == "jpg" || path.substr(path.find_last_of(".") + 1) == "jpeg";
 }
 
+#ifdef HAVE_JPEG
+// NB: The default error handler terminates the process.
+struct JpegErrorManager {
+    jpeg_error_mgr base;
+    jmp_buf        jump;
+};
+
+void JpegErrorExit(j_common_ptr cinfo) {
+    longjmp(reinterpret_cast<JpegErrorManager*>(cinfo->err)->jump, 1);
+}
+#endif
+
 void ReadJpegFile(std::string_view path, deepworks::Tensor& out_tensor) {
 #ifdef HAVE_JPEG
     struct jpeg_decompress_struct cinfo{};
-    struct jpeg_error_mgr err{};
+    JpegErrorManager err{};
     FILE *infile = fopen(std::string(path).c_str(), "rb");
 
     if (!infile) {
@@ -51,7 +65,10 @@ void ReadJpegFile(std::string_view path, deepworks::Tensor& out_tensor) {
     };
 
     try {
-        cinfo.err = jpeg_std_error(&err);
+        cinfo.err = jpeg_std_error(&err.base);
+        err.base.error_exit = JpegErrorExit;
+        DeepWorks_Assert(!setjmp(err.jump) && "Error during read JPEG header");
+
         jpeg_create_decompress(&cinfo);
         jpeg_stdio_src(&cinfo, infile);
 
@@ -82,13 +99,14 @@ void ReadJpegFile(std::string_view path, deepworks::Tensor& out_tensor) {
     size_t h = 0;
     // it's works if we have default hwc layout for tensor
     try {
+        DeepWorks_Assert(!setjmp(err.jump) && "Error during read JPEG image");
         while (cinfo.output_scanline < cinfo.output_height) {
             (void) jpeg_read_scanlines(&cinfo, buffer, 1);
             std::copy_n(buffer[0], elements_per_h_channel, &dst_data[h * elements_per_h_channel]);
             ++h;
         }
     } catch (...) {
-        finish_and_destroy();
+        destroy();
         throw;
     }
     finish_and_destroy();
-- 
2.43.0


From e773e79dfbd29c2249b82c5c161ef6ee038f371d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:51 +0000
Subject: [PATCH 15/23] fix: visit every placeholder once when the model graph
 is unrolled

---
 src/model/graphbuilder.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/model/graphbuilder.cpp b/src/model/graphbuilder.cpp
index af67597..de64083 100644
--- a/src/model/graphbuilder.cpp
+++ b/src/model/graphbuilder.cpp
@@ -89,11 +89,14 @@ deepworks::GraphBuilder::Unrolled deepworks::GraphBuilder::unroll(const deepwork
     // Travers over the graph and collect all data & operation nodes.
     while (!stack.empty()) {
         auto data = stack.top();
-        all_data.push_back(data);
-
         stack.pop();
-        // NB: Mark input node as visited.
-        reached_data.insert(&data.impl());
+
+        // NB: Mark node as visited. It might be on the stack more than once
+        // if several operations (or the model outputs) refer to it.
+        if (!reached_data.insert(&data.impl()).second) {
+            continue;
+        }
+        all_data.push_back(data);
 
         auto has_call = data.impl().call;
         // NB: We reached the node without producer, so we found the input node.
-- 
2.43.0


From a1cc06387c4d0c613c5227e7d00691479f82db22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:33 +0000
Subject: [PATCH 16/23] fix: reject truncated state, config and model files

---
 src/serialization.cpp | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/serialization.cpp b/src/serialization.cpp
index 87cbce1..c1e909c 100644
--- a/src/serialization.cpp
+++ b/src/serialization.cpp
@@ -13,10 +13,17 @@ void write_value(T value, std::ofstream& file) {
     file.write(reinterpret_cast<char*>(&value), sizeof(value));
 }
 
+static void read_bytes(void* dst, size_t size, std::ifstream& file) {
+    file.read(reinterpret_cast<char*>(dst), size);
+    if (!file) {
+        DeepWorks_Throw() << "Failed to read the file: unexpected end or read error";
+    }
+}
+
 template <typename T>
 T read_value(std::ifstream& file) {
     T value{};
-    file.read(reinterpret_cast<char*>(&value), sizeof(value));
+    read_bytes(&value, sizeof(value), file);
     return value;
 }
 
@@ -32,8 +39,7 @@ T read_sequence(std::ifstream& file) {
     T seq{};
     auto size = read_value<size_t>(file);
     seq.resize(size);
-    file.read(reinterpret_cast<char*>(seq.data()),
-              size * sizeof(typename T::value_type));
+    read_bytes(seq.data(), size * sizeof(typename T::value_type), file);
     return seq;
 }
 
@@ -42,8 +48,10 @@ template <typename T, int S>
 std::array<T, S> read_array(std::ifstream& file) {
     std::array<T, S> seq;
     auto size = read_value<size_t>(file);
-    file.read(reinterpret_cast<char*>(seq.data()),
-              size * sizeof(T));
+    if (size != seq.size()) {
+        DeepWorks_Throw() << "Unexpected array size: " << size;
+    }
+    read_bytes(seq.data(), size * sizeof(T), file);
     return seq;
 }
 
@@ -99,8 +107,7 @@ void dw::load_state(Model::StateDict& state, std::ifstream& file) {
                               << "Actual: " << shape;
         }
 
-        file.read(reinterpret_cast<char*>(it->second.data()),
-                  it->second.total() * sizeof(dw::Tensor::Type));
+        read_bytes(it->second.data(), it->second.total() * sizeof(dw::Tensor::Type), file);
     }
 }
 
-- 
2.43.0


From 1b38e1cb11535c0b1f6c508fc5e424bc2fc4564e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:33 +0000
Subject: [PATCH 17/23] fix: report a config or model file that can't be
 opened, and open it for reading only

---
 src/serialization.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/serialization.cpp b/src/serialization.cpp
index c1e909c..654740c 100644
--- a/src/serialization.cpp
+++ b/src/serialization.cpp
@@ -267,7 +267,10 @@ void dw::save_cfg(const Model::Config& cfg, std::ofstream& file) {
 }
 
 dw::Model::Config dw::load_cfg(const std::string& path) {
-    std::ifstream file(path, std::ios::out | std::ios::binary);
+    std::ifstream file(path, std::ios::in | std::ios::binary);
+    if (!file.is_open()) {
+        DeepWorks_Throw() << "Failed to open the file: " << path;
+    }
     return dw::load_cfg(file);
 }
 
@@ -311,6 +314,9 @@ void dw::save(const dw::Model& model, const std::string& path) {
 
 dw::Model dw::load(const std::string& path) {
     std::ifstream file(path, std::ios::in | std::ios::binary);
+    if (!file.is_open()) {
+        DeepWorks_Throw() << "Failed to open the file: " << path;
+    }
     auto model = dw::Model::Build(dw::load_cfg(file));
     dw::load_state(model.state(), file);
     return model;
-- 
2.43.0


From 4d2840d709eec2a5018f31afca06bb5934592025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:33 +0000
Subject: [PATCH 18/23] fix: report a state, config or model file that can't be
 written

---
 src/serialization.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/serialization.cpp b/src/serialization.cpp
index 654740c..285449b 100644
--- a/src/serialization.cpp
+++ b/src/serialization.cpp
@@ -55,6 +55,14 @@ std::array<T, S> read_array(std::ifstream& file) {
     return seq;
 }
 
+// NB: Make sure that everything has been written.
+static void check_written(std::ofstream& file) {
+    file.flush();
+    if (!file) {
+        DeepWorks_Throw() << "Failed to write the file";
+    }
+}
+
 enum class SerializationKind : int {
     STATE,
     CONFIG
@@ -75,6 +83,7 @@ void dw::save_state(const Model::StateDict& state, std::ofstream& file) {
         file.write(reinterpret_cast<char*>(tensor.data()),
                    tensor.total() * sizeof(dw::Tensor::Type));
     }
+    check_written(file);
 }
 
 void dw::load_state(Model::StateDict& state, const std::string& path) {
@@ -264,6 +273,7 @@ void dw::save_cfg(const Model::Config& cfg, std::ofstream& file) {
         write_sequence(op_info.out_ids, file);
         write_attributes(op_info.attrs, file);
     }
+    check_written(file);
 }
 
 dw::Model::Config dw::load_cfg(const std::string& path) {
-- 
2.43.0


From 26b64f77d83ef0cee40c8117592a92aaa4d25231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:33 +0000
Subject: [PATCH 19/23] fix: keep the order of the model inputs and outputs in
 its config

---
 src/model/model.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/model/model.cpp b/src/model/model.cpp
index 886d3f5..db39198 100644
--- a/src/model/model.cpp
+++ b/src/model/model.cpp
@@ -105,14 +105,15 @@ static void createConfig(TypedGraph& tgraph, dw::Model::Config& cfg) {
         const auto& d = tgraph.metadata(nh).get<Data>();
         deepworks::Model::Config::PlaceholderInfo ph_info{d.ph.shape(), d.id};
         cfg.ph_map.emplace(d.id, std::move(ph_info));
+    }
 
-        if (d.s == Data::Storage::INPUT) {
-            cfg.input_ids.push_back(d.id);
-        }
-
-        if (d.s == Data::Storage::OUTPUT) {
-            cfg.output_ids.push_back(d.id);
-        }
+    // NB: Keep the order in which user passed inputs and outputs.
+    const auto& info = tgraph.metadata().get<Info>();
+    for (auto nh : info.in_nhs) {
+        cfg.input_ids.push_back(tgraph.metadata(nh).get<Data>().id);
+    }
+    for (auto nh : info.out_nhs) {
+        cfg.output_ids.push_back(tgraph.metadata(nh).get<Data>().id);
     }
 
     sorted = tgraph.metadata().get<ade::passes::TopologicalSortData>().nodes();
-- 
2.43.0


From b2cd2c151297ded73a621ea1420291afcd54fe9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:49 +0000
Subject: [PATCH 20/23] fix: quote layer names in .dot files and report a
 failed write

---
 src/serialization.cpp | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/serialization.cpp b/src/serialization.cpp
index 285449b..fc89231 100644
--- a/src/serialization.cpp
+++ b/src/serialization.cpp
@@ -120,6 +120,18 @@ void dw::load_state(Model::StateDict& state, std::ifstream& file) {
     }
 }
 
+// NB: Layer names are arbitrary strings, so they have to be quoted in .dot file
+static std::string dot_quote(const std::string& str) {
+    std::string quoted = "\"";
+    for (char c : str) {
+        if (c == '"' || c == '\\') {
+            quoted += '\\';
+        }
+        quoted += c;
+    }
+    return quoted + "\"";
+}
+
 void dw::save_dot(const dw::Model::Config& cfg,
                   const std::string& path) {
     std::ofstream file(path, std::ios::out);
@@ -135,8 +147,8 @@ void dw::save_dot(const dw::Model::Config& cfg,
 
     for (const auto& op : cfg.sorted_ops) {
         // FIXME: Dump more info, attributes, parameters, named buffers...
-        file << op.name << " [shape=box, label=\"" << op.name
-                        << " (" << op.type << ")" << "\" ]" << std::endl;
+        file << dot_quote(op.name) << " [shape=box, label="
+             << dot_quote(op.name + " (" + op.type + ")") << " ]" << std::endl;
     }
 
     for (const auto& op : cfg.sorted_ops) {
@@ -146,7 +158,7 @@ void dw::save_dot(const dw::Model::Config& cfg,
 
             const auto& ph = cfg.ph_map.at(in_id);
             std::string name = "Placeholder_" + std::to_string(ph.id);
-            file << name << " -> \"" << op.name << "\" [ label = \"in_port: "
+            file << name << " -> " << dot_quote(op.name) << " [ label = \"in_port: "
                << port << "\" ]" << std::endl;
         }
 
@@ -156,12 +168,13 @@ void dw::save_dot(const dw::Model::Config& cfg,
 
             const auto& ph = cfg.ph_map.at(out_id);
             std::string name = "Placeholder_" + std::to_string(ph.id);
-            file << op.name << " -> " << name << " [ label = \"out_port: "
+            file << dot_quote(op.name) << " -> " << name << " [ label = \"out_port: "
                << port << "\" ];" << std::endl;
         }
     }
 
     file << "}";
+    check_written(file);
 }
 
 void write_attribute(const dw::Attribute& attr, std::ofstream& file) {
-- 
2.43.0


From 19a8820e42a329783038ed5154f2dfc58158561e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:18 +0000
Subject: [PATCH 21/23] fix: keep the caller's output gradients in
 Model::backward

---
 src/runtime/cpu/cpubackend.cpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/runtime/cpu/cpubackend.cpp b/src/runtime/cpu/cpubackend.cpp
index 691455d..ad859ef 100644
--- a/src/runtime/cpu/cpubackend.cpp
+++ b/src/runtime/cpu/cpubackend.cpp
@@ -1,5 +1,7 @@
 #include "runtime/cpu/cpubackend.hpp"
 
+#include <algorithm>
+
 #include <deepworks/shape.hpp>
 #include <deepworks/initializers.hpp>
 
@@ -116,9 +118,20 @@ void dwcpu::CPUBackend::backward(const std::vector<deepworks::Tensor>& inputs,
     }
 
     const auto& info = m_tgraph.metadata().get<graph::Info>();
-    bind(inputs      , info.in_nhs , m_mem);
-    bind(outputs     , info.out_nhs, m_mem);
-    bind(grad_outputs, info.out_nhs, m_grad);
+    bind(inputs , info.in_nhs , m_mem);
+    bind(outputs, info.out_nhs, m_mem);
+
+    // NB: Layers that consume an output add to its gradient,
+    // so work on a copy of the gradients passed by user.
+    for (int i = 0; i < info.out_nhs.size(); ++i) {
+        const auto& d   = m_tgraph.metadata(info.out_nhs[i]).get<graph::Data>();
+        const auto& src = grad_outputs[i];
+        auto& grad = m_grad[d.id];
+        if (grad.shape() != src.shape()) {
+            grad = deepworks::Tensor(src.shape());
+        }
+        std::copy_n(src.data(), src.total(), grad.data());
+    }
 
     auto extract_mem  = [this](int id) { return m_mem[id];  };
     auto extract_grad = [this](int id) { return m_grad[id]; };
-- 
2.43.0


From 6fb83b58c255f6ea8df81439164b9d1cf7a9a056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:20 +0000
Subject: [PATCH 22/23] fix: build a model from its inputs, not from the
 placeholders before them

---
 src/model/graphbuilder.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/model/graphbuilder.cpp b/src/model/graphbuilder.cpp
index de64083..f54e3a7 100644
--- a/src/model/graphbuilder.cpp
+++ b/src/model/graphbuilder.cpp
@@ -50,7 +50,7 @@ void deepworks::GraphBuilder::build(const deepworks::Placeholders& ins,
     }
 
     // Get handles associated with plahceholders
-    auto extract = [this](const Placeholder& ph) { return m_data[&ph.impl()]; };
+    auto extract = [this](const Placeholder& ph) { return getDataNode(ph); };
 
     std::vector<ade::NodeHandle> in_handles;
     in_handles.reserve(ins.size());
@@ -82,6 +82,10 @@ deepworks::GraphBuilder::Unrolled deepworks::GraphBuilder::unroll(const deepwork
     // NB: Placeholder::Impl is an unique object for every placeholder.
     std::unordered_set<deepworks::Placeholder::Impl*> reached_data;
 
+    // NB: The model starts at its inputs, even if an input is
+    // an output of operation which doesn't belong to the model.
+    for (auto in : ins) reached_data.insert(&in.impl());
+
     std::stack<deepworks::Placeholder> stack;
     for (auto&& out : outs) stack.push(out);
 
-- 
2.43.0


From fbf0d08f350d416b6da589ce1edc3f6f99325b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:20 +0000
Subject: [PATCH 23/23] fix: write every model output when a placeholder is an
 input too or listed more than once

---
 src/runtime/cpu/cpubackend.cpp | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/runtime/cpu/cpubackend.cpp b/src/runtime/cpu/cpubackend.cpp
index ad859ef..7b629f3 100644
--- a/src/runtime/cpu/cpubackend.cpp
+++ b/src/runtime/cpu/cpubackend.cpp
@@ -1,6 +1,7 @@
 #include "runtime/cpu/cpubackend.hpp"
 
 #include <algorithm>
+#include <functional>
 
 #include <deepworks/shape.hpp>
 #include <deepworks/initializers.hpp>
@@ -79,8 +80,8 @@ void dwcpu::CPUBackend::bind(const std::vector<deepworks::Tensor>& tensors,
 void dwcpu::CPUBackend::forward(const std::vector<deepworks::Tensor>& inputs,
                                       std::vector<deepworks::Tensor>& outputs) {
     const auto& info = m_tgraph.metadata().get<graph::Info>();
-    bind(inputs , info.in_nhs,  m_mem);
     bind(outputs, info.out_nhs, m_mem);
+    bind(inputs , info.in_nhs,  m_mem);
 
     auto extract = [this](int id) { return m_mem[id]; };
 
@@ -98,6 +99,15 @@ void dwcpu::CPUBackend::forward(const std::vector<deepworks::Tensor>& inputs,
         const auto& cpulayer = cpu_graph.metadata(nh).get<dwcpu::CPUImpl>().impl;
         cpulayer->forward(inps, outs);
     }
+
+    // NB: The same placeholder might be listed several times
+    // in outputs or be an input as well, only one tensor is bound to it.
+    for (int i = 0; i < info.out_nhs.size(); ++i) {
+        const auto& mem = m_mem[m_tgraph.metadata(info.out_nhs[i]).get<graph::Data>().id];
+        if (mem.data() != outputs[i].data()) {
+            mem.copyTo(outputs[i]);
+        }
+    }
 }
 
 void dwcpu::CPUBackend::backward(const std::vector<deepworks::Tensor>& inputs,
@@ -118,8 +128,8 @@ void dwcpu::CPUBackend::backward(const std::vector<deepworks::Tensor>& inputs,
     }
 
     const auto& info = m_tgraph.metadata().get<graph::Info>();
-    bind(inputs , info.in_nhs , m_mem);
     bind(outputs, info.out_nhs, m_mem);
+    bind(inputs , info.in_nhs , m_mem);
 
     // NB: Layers that consume an output add to its gradient,
     // so work on a copy of the gradients passed by user.
@@ -130,7 +140,12 @@ void dwcpu::CPUBackend::backward(const std::vector<deepworks::Tensor>& inputs,
         if (grad.shape() != src.shape()) {
             grad = deepworks::Tensor(src.shape());
         }
-        std::copy_n(src.data(), src.total(), grad.data());
+        deepworks::initializer::zeros(grad);
+    }
+    for (int i = 0; i < info.out_nhs.size(); ++i) {
+        const auto& src  = grad_outputs[i];
+        auto&       grad = m_grad[m_tgraph.metadata(info.out_nhs[i]).get<graph::Data>().id];
+        std::transform(src.data(), src.data() + src.total(), grad.data(), grad.data(), std::plus<>());
     }
 
     auto extract_mem  = [this](int id) { return m_mem[id];  };
-- 
2.43.0

