From 8217f60155f333b4961145ae943a63d5163e28e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:01 +0000
Subject: [PATCH 01/71] fix: report write errors when finishing a compressed
 stream

finish() dropped the inner BufWriter, whose implicit flush discards I/O
errors: the last buffered bytes could be lost while success was reported.
---
 rust/jstprove_io/src/compress.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust/jstprove_io/src/compress.rs b/rust/jstprove_io/src/compress.rs
index 733fee0..a3c3616 100644
--- a/rust/jstprove_io/src/compress.rs
+++ b/rust/jstprove_io/src/compress.rs
@@ -56,8 +56,8 @@ impl MaybeCompressed {
     pub fn finish(self) -> io::Result<()> {
         match self {
             Self::Compressed(enc) => {
-                enc.finish()?;
-                Ok(())
+                let mut inner = enc.finish()?;
+                inner.flush()
             }
             Self::Plain(mut w) => w.flush(),
         }
-- 
2.43.0


From 791cf9727c6883c66d7d7e7bbdbd4c6f0d179e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:01 +0000
Subject: [PATCH 02/71] fix: roll back the partially written file when a bundle
 write fails

The file was registered with the guard only after it had been written, so a
failing write left it behind, and with it the non-empty bundle directory.
---
 rust/jstprove_io/src/bundle.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/rust/jstprove_io/src/bundle.rs b/rust/jstprove_io/src/bundle.rs
index 304cc1e..34203e1 100644
--- a/rust/jstprove_io/src/bundle.rs
+++ b/rust/jstprove_io/src/bundle.rs
@@ -32,14 +32,13 @@ impl WriteGuard {
     }
 
     fn write_blob(&mut self, path: PathBuf, data: &[u8], compress: bool) -> Result<()> {
-        write_blob(&path, data, compress)?;
         self.paths.push(path);
-        Ok(())
+        write_blob(&self.paths[self.paths.len() - 1], data, compress)
     }
 
     fn serialize_to_file<T: Serialize>(&mut self, val: &T, path: PathBuf) -> Result<()> {
-        crate::serialize_to_file(val, &path, false)?;
         self.paths.push(path);
+        crate::serialize_to_file(val, &self.paths[self.paths.len() - 1], false)?;
         Ok(())
     }
 
-- 
2.43.0


From 4f7d0c696a712cef9b145f1979a28049479ae944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:01 +0000
Subject: [PATCH 03/71] fix: keep uncompressed bundle blobs that start with the
 zstd magic readable

---
 rust/jstprove_io/src/bundle.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rust/jstprove_io/src/bundle.rs b/rust/jstprove_io/src/bundle.rs
index 34203e1..74ba70f 100644
--- a/rust/jstprove_io/src/bundle.rs
+++ b/rust/jstprove_io/src/bundle.rs
@@ -5,6 +5,7 @@ use anyhow::Result;
 use serde::{de::DeserializeOwned, Serialize};
 
 use crate::compress::{auto_reader, compressed_writer};
+use crate::envelope::ZSTD_MAGIC;
 use crate::version::ArtifactVersion;
 
 const CIRCUIT_FILENAME: &str = "circuit.bin";
@@ -202,6 +203,9 @@ pub fn read_bundle_metadata<M: DeserializeOwned>(
 }
 
 fn write_blob(path: impl AsRef<Path>, data: &[u8], compress: bool) -> Result<()> {
+    // The reader recognises compressed blobs by their magic, so a blob that itself
+    // starts with that magic has to be stored compressed to be read back unchanged.
+    let compress = compress || data.starts_with(&ZSTD_MAGIC);
     let file = std::fs::File::create(path.as_ref())?;
     let mut writer = compressed_writer(file, compress)?;
     writer.write_all(data)?;
-- 
2.43.0


From 7218bfddc0fe999bfe8b79361e901b8cd1ee60d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:01 +0000
Subject: [PATCH 04/71] fix: checksum the whole payload when reading an
 artifact from a file

The decoder stops once the value is complete, so the end of a compressed
payload could stay unread and a valid file fail its CRC check.
---
 rust/jstprove_io/src/lib.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/rust/jstprove_io/src/lib.rs b/rust/jstprove_io/src/lib.rs
index 01feaea..dcffeea 100644
--- a/rust/jstprove_io/src/lib.rs
+++ b/rust/jstprove_io/src/lib.rs
@@ -83,16 +83,18 @@ pub fn deserialize_from_file<T: DeserializeOwned>(path: &Path) -> Result<T> {
         DetectedFormat::Envelope => {
             let header = envelope::parse_header(&header_buf)?;
             let crc_state = std::rc::Rc::new(std::cell::Cell::new(0u32));
-            let crc_reader = Crc32cReader {
+            let mut crc_reader = Crc32cReader {
                 inner: reader.take(header.payload_len),
                 crc: std::rc::Rc::clone(&crc_state),
             };
             let result = if header.compressed {
-                let decoder = zstd::stream::read::Decoder::new(crc_reader)?;
+                let decoder = zstd::stream::read::Decoder::new(&mut crc_reader)?;
                 rmp_serde::from_read(BufReader::new(decoder))?
             } else {
-                rmp_serde::from_read(BufReader::new(crc_reader))?
+                rmp_serde::from_read(BufReader::new(&mut crc_reader))?
             };
+            // The value can be complete before the payload is: the CRC covers all of it.
+            std::io::copy(&mut crc_reader, &mut std::io::sink())?;
             envelope::verify_crc_computed(crc_state.get(), header.crc32)?;
             Ok(result)
         }
-- 
2.43.0


From afbc497d409bccb23fca10e797f3424a337dcc66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:01 +0000
Subject: [PATCH 05/71] fix: read legacy artifact files shorter than the
 envelope header

---
 rust/jstprove_io/src/lib.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rust/jstprove_io/src/lib.rs b/rust/jstprove_io/src/lib.rs
index dcffeea..8a462b9 100644
--- a/rust/jstprove_io/src/lib.rs
+++ b/rust/jstprove_io/src/lib.rs
@@ -76,8 +76,11 @@ pub fn deserialize_from_bytes<T: DeserializeOwned>(data: &[u8]) -> Result<T> {
 pub fn deserialize_from_file<T: DeserializeOwned>(path: &Path) -> Result<T> {
     let file = std::fs::File::open(path)?;
     let mut reader = BufReader::new(file);
-    let mut header_buf = [0u8; ENVELOPE_HEADER_LEN];
-    reader.read_exact(&mut header_buf)?;
+    let mut header_buf = Vec::with_capacity(ENVELOPE_HEADER_LEN);
+    reader
+        .by_ref()
+        .take(ENVELOPE_HEADER_LEN as u64)
+        .read_to_end(&mut header_buf)?;
 
     match envelope::detect_format(&header_buf) {
         DetectedFormat::Envelope => {
-- 
2.43.0


From 910cd649d548719dc12bdd5e910749654dfbcd42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:14 +0000
Subject: [PATCH 06/71] fix: Max and Min broadcast their inputs in shape
 inference

The output shape was taken from the first input alone, so Max(w[2], x[5,6,3,2])
was inferred as [2] and Min(x[5,1,1,4], c[3,1]) as [5,1,1,4].
---
 rust/jstprove_onnx/src/shape_inference.rs | 24 ++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/rust/jstprove_onnx/src/shape_inference.rs b/rust/jstprove_onnx/src/shape_inference.rs
index 7dde0bb..918a000 100644
--- a/rust/jstprove_onnx/src/shape_inference.rs
+++ b/rust/jstprove_onnx/src/shape_inference.rs
@@ -682,9 +682,9 @@ fn infer_layer_output_shape(
         OpType::Conv => infer_conv(layer, shapes),
         OpType::Gemm => infer_gemm(layer, shapes),
         OpType::BatchNormalization => passthrough_shape(layer, input_shape),
-        OpType::Relu | OpType::Max | OpType::Min | OpType::Clip => {
-            passthrough_shape(layer, input_shape)
-        }
+        OpType::Relu | OpType::Clip => passthrough_shape(layer, input_shape),
+        // Max and Min are variadic: output shape is the broadcast of all input shapes.
+        OpType::Max | OpType::Min => infer_broadcast_variadic(layer, shapes),
         OpType::MaxPool => infer_maxpool(layer, input_shape),
         OpType::Add | OpType::Sub | OpType::Div => infer_broadcast_binary(layer, shapes),
         OpType::Mul => infer_broadcast_binary(layer, shapes),
@@ -1183,6 +1183,24 @@ fn infer_broadcast_binary(
         .collect())
 }
 
+fn infer_broadcast_variadic(
+    layer: &LayerNode,
+    shapes: &HashMap<String, Vec<usize>>,
+) -> Result<Vec<(String, Vec<usize>)>> {
+    let mut out_shape: Option<Vec<usize>> = None;
+    for name in &layer.inputs {
+        let Some(shape) = get_shape(shapes, name) else {
+            continue;
+        };
+        out_shape = Some(match out_shape {
+            None => shape.clone(),
+            Some(acc) => broadcast_shapes(&acc, shape)
+                .map_err(|e| anyhow::anyhow!("layer {}: {e}", layer.name))?,
+        });
+    }
+    passthrough_shape(layer, out_shape.as_ref())
+}
+
 fn infer_reshape(
     layer: &LayerNode,
     input_shape: Option<&Vec<usize>>,
-- 
2.43.0


From 3ff54d292442f6354e82245ea013e065568986dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:14 +0000
Subject: [PATCH 07/71] fix: Reduce* with empty axes reduces every dimension,
 unless noop_with_empty_axes

An empty axes tensor was inferred as reducing nothing, and a missing one as
reducing everything even with noop_with_empty_axes=1; ONNX specifies the opposite.
---
 rust/jstprove_onnx/src/shape_inference.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rust/jstprove_onnx/src/shape_inference.rs b/rust/jstprove_onnx/src/shape_inference.rs
index 918a000..63e32f1 100644
--- a/rust/jstprove_onnx/src/shape_inference.rs
+++ b/rust/jstprove_onnx/src/shape_inference.rs
@@ -2388,9 +2388,12 @@ fn infer_reduce(
         );
     }
 
+    // Absent or empty axes reduce over every dimension unless the model asks for a no-op.
+    let noop_with_empty_axes = layer.get_int_attr("noop_with_empty_axes").unwrap_or(0) != 0;
     let axes: Vec<usize> = if let Some(raw_axes) = axes_from_input
         .as_deref()
         .or_else(|| layer.get_ints_attr("axes"))
+        .filter(|axes| !axes.is_empty())
     {
         raw_axes
             .iter()
@@ -2407,6 +2410,8 @@ fn infer_reduce(
                 Ok(a as usize)
             })
             .collect::<Result<Vec<usize>>>()?
+    } else if noop_with_empty_axes {
+        vec![]
     } else {
         (0..rank).collect()
     };
-- 
2.43.0


From e65d25d09c7db5e4548ea353cfe36f082237f7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:14 +0000
Subject: [PATCH 08/71] fix: pooling shape inference honours dilations

The kernel extent of a dilated MaxPool/AveragePool was taken as the undilated one.
---
 rust/jstprove_onnx/src/shape_inference.rs | 24 ++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/rust/jstprove_onnx/src/shape_inference.rs b/rust/jstprove_onnx/src/shape_inference.rs
index 63e32f1..27f0d46 100644
--- a/rust/jstprove_onnx/src/shape_inference.rs
+++ b/rust/jstprove_onnx/src/shape_inference.rs
@@ -1086,6 +1086,12 @@ fn infer_maxpool(
         vec![0; kernel.len() * 2]
     };
 
+    let dilations = if let Some(v) = layer.get_ints_attr("dilations") {
+        nonneg_to_usize(v, "dilations", &layer.name)?
+    } else {
+        vec![1; kernel.len()]
+    };
+
     let spatial_dims = kernel.len();
 
     if input_shape.len() < 2 + spatial_dims {
@@ -1095,11 +1101,15 @@ fn infer_maxpool(
             input_shape.len()
         );
     }
-    if pads.len() < 2 * spatial_dims || strides.len() < spatial_dims {
+    if pads.len() < 2 * spatial_dims
+        || dilations.len() < spatial_dims
+        || strides.len() < spatial_dims
+    {
         bail!(
-            "layer {}: MaxPool attribute length mismatch: pads={} strides={} spatial_dims={spatial_dims}",
+            "layer {}: MaxPool attribute length mismatch: pads={} dilations={} strides={} spatial_dims={spatial_dims}",
             layer.name,
             pads.len(),
+            dilations.len(),
             strides.len()
         );
     }
@@ -1115,14 +1125,14 @@ fn infer_maxpool(
                 layer.name
             );
         }
-        if padded < kernel[i] {
+        let effective_kernel = (kernel[i] - 1) * dilations[i] + 1;
+        if padded < effective_kernel {
             bail!(
-                "layer {}: MaxPool padded input {padded} < kernel {k} at spatial dim {i}",
-                layer.name,
-                k = kernel[i]
+                "layer {}: MaxPool padded input {padded} < effective kernel {effective_kernel} at spatial dim {i}",
+                layer.name
             );
         }
-        let out_dim = (padded - kernel[i]) / strides[i] + 1;
+        let out_dim = (padded - effective_kernel) / strides[i] + 1;
         out_shape.push(out_dim);
     }
 
-- 
2.43.0


From cc3a6a0a3f20cd10f5a0897184c2028c902b6cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:54 +0000
Subject: [PATCH 09/71] fix: refuse implicit padding and partial pooling
 windows in shape inference

auto_pad=SAME_* and ceil_mode=1 were ignored, so the inferred output was smaller than
the model's. Neither is implemented by the circuits; refuse a layer they would change.
---
 rust/jstprove_onnx/src/shape_inference.rs | 47 +++++++++++++++++++++++
 1 file changed, 47 insertions(+)

diff --git a/rust/jstprove_onnx/src/shape_inference.rs b/rust/jstprove_onnx/src/shape_inference.rs
index 27f0d46..63360d1 100644
--- a/rust/jstprove_onnx/src/shape_inference.rs
+++ b/rust/jstprove_onnx/src/shape_inference.rs
@@ -670,6 +670,32 @@ fn nonneg_to_usize(vals: &[i64], attr: &str, layer_name: &str) -> Result<Vec<usi
         .collect()
 }
 
+/// `auto_pad=SAME_*` asks for padding that is not in `pads`; only explicit padding is modelled,
+/// so refuse the layer when that implicit padding would be non-zero.
+fn ensure_no_implicit_padding(
+    layer: &LayerNode,
+    spatial_dim: usize,
+    in_dim: usize,
+    effective_kernel: usize,
+    stride: usize,
+) -> Result<()> {
+    if !matches!(
+        layer.get_string_attr("auto_pad"),
+        Some("SAME_UPPER" | "SAME_LOWER")
+    ) {
+        return Ok(());
+    }
+    let covered = in_dim.div_ceil(stride).saturating_sub(1) * stride + effective_kernel;
+    if covered > in_dim {
+        bail!(
+            "layer {}: auto_pad=SAME_* needs implicit padding at spatial dim {spatial_dim}; \
+             only explicit pads are supported",
+            layer.name
+        );
+    }
+    Ok(())
+}
+
 fn infer_layer_output_shape(
     layer: &LayerNode,
     shapes: &HashMap<String, Vec<usize>>,
@@ -911,6 +937,7 @@ fn infer_conv(
                 layer.name
             );
         }
+        ensure_no_implicit_padding(layer, i, in_dim, effective_kernel, strides[i])?;
         let out_dim = (padded - effective_kernel) / strides[i] + 1;
         out_shape.push(out_dim);
     }
@@ -1132,6 +1159,15 @@ fn infer_maxpool(
                 layer.name
             );
         }
+        ensure_no_implicit_padding(layer, i, in_dim, effective_kernel, strides[i])?;
+        if layer.get_int_attr("ceil_mode").unwrap_or(0) != 0
+            && (padded - effective_kernel) % strides[i] != 0
+        {
+            bail!(
+                "layer {}: ceil_mode=1 adds a partial window at spatial dim {i}, which is not supported",
+                layer.name
+            );
+        }
         let out_dim = (padded - effective_kernel) / strides[i] + 1;
         out_shape.push(out_dim);
     }
@@ -2929,6 +2965,17 @@ fn infer_conv_transpose(
             );
         }
         let effective_kernel = (kernel_shape[i] - 1) * d + 1;
+        if matches!(
+            layer.get_string_attr("auto_pad"),
+            Some("SAME_UPPER" | "SAME_LOWER")
+        ) && effective_kernel + out_pad != strides[i]
+        {
+            bail!(
+                "layer {}: auto_pad=SAME_* needs implicit padding at spatial dim {i}; \
+                 only explicit pads are supported",
+                layer.name
+            );
+        }
         // Compute in signed space to detect invalid (negative) output dims.
         let out_dim_signed = strides[i] as i64 * (in_dim as i64 - 1) + effective_kernel as i64
             - pad as i64
-- 
2.43.0


From 6f13ce58c21ba50abb4e602a03c01013f094aca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:54 +0000
Subject: [PATCH 10/71] fix: quantizer no longer panics on Concat of a tensor
 whose tracked shape is empty

propagate_shapes indexed the first input's shape at the concat axis although best-effort
tracking may have recorded a rank-0 shape for it.
---
 rust/jstprove_onnx/src/quantizer.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/rust/jstprove_onnx/src/quantizer.rs b/rust/jstprove_onnx/src/quantizer.rs
index 02455b3..f89ac50 100644
--- a/rust/jstprove_onnx/src/quantizer.rs
+++ b/rust/jstprove_onnx/src/quantizer.rs
@@ -686,10 +686,12 @@ fn propagate_shapes(graph: &LayerGraph) -> Result<HashMap<String, Vec<usize>>> {
                         (axis as usize).min(rank.saturating_sub(1))
                     };
                     let mut out = (*first).clone();
-                    out[ax] = in_shapes
-                        .iter()
-                        .map(|s| s.get(ax).copied().unwrap_or(0))
-                        .sum();
+                    if let Some(dim) = out.get_mut(ax) {
+                        *dim = in_shapes
+                            .iter()
+                            .map(|s| s.get(ax).copied().unwrap_or(0))
+                            .sum();
+                    }
                     out
                 } else {
                     input_shape.unwrap_or_default()
-- 
2.43.0


From 115c6a85cead800d667bfa58ed9aa48995d96e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:25 +0000
Subject: [PATCH 11/71] fix: constant-folded Cast converts the values it folds

Cast only relabelled the element type, so a shape built as Cast(float -> int64) kept its
floats: ConstantOfShape read an empty shape, Range kept the fraction, Concat gave up.
---
 rust/jstprove_onnx/src/shape_inference.rs | 24 +++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/rust/jstprove_onnx/src/shape_inference.rs b/rust/jstprove_onnx/src/shape_inference.rs
index 63360d1..9ce0704 100644
--- a/rust/jstprove_onnx/src/shape_inference.rs
+++ b/rust/jstprove_onnx/src/shape_inference.rs
@@ -4,6 +4,7 @@ use anyhow::{bail, Result};
 
 use super::graph::{LayerGraph, LayerNode, OpType};
 use super::parser::{AttrValue, ParsedModel, TensorData};
+use super::tensor_proto::DataType;
 
 pub fn infer_all_shapes(
     model: &ParsedModel,
@@ -597,14 +598,29 @@ fn fold_cast(
 ) -> Option<TensorData> {
     let input_name = layer.inputs.first()?;
     let input_td = lookup_constant(input_name, initializers, constant_tensors)?;
-    let to = layer.get_int_attr("to")?;
+    let to = i32::try_from(layer.get_int_attr("to")?).ok()?;
+
+    let (float_data, int_data) = match DataType::try_from(to).ok()? {
+        DataType::Float | DataType::Double => (input_td.as_f64_vec(), vec![]),
+        // as_i64_vec truncates towards zero, as the ONNX float-to-integer cast does.
+        DataType::Int32 | DataType::Int64 => (vec![], input_td.as_i64_vec()),
+        DataType::Bool => (
+            vec![],
+            input_td
+                .as_f64_vec()
+                .iter()
+                .map(|&v| i64::from(v != 0.0))
+                .collect(),
+        ),
+        _ => (input_td.float_data.clone(), input_td.int_data.clone()),
+    };
 
     Some(TensorData {
         name: String::new(),
         dims: input_td.dims.clone(),
-        data_type: to as i32,
-        float_data: input_td.float_data.clone(),
-        int_data: input_td.int_data.clone(),
+        data_type: to,
+        float_data,
+        int_data,
     })
 }
 
-- 
2.43.0


From 9d68019fe91b6de727c399e9a75cd51508cfb14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:50 +0000
Subject: [PATCH 12/71] fix: constant-folded Gather and Slice keep float values
 and never index past the data

Folding a float constant truncated it to integers (Range over gathered 0.25 steps had the
wrong length), Slice along axis -1 was not folded, and an empty starts/steps tensor or
data shorter than its dims panicked.
---
 rust/jstprove_onnx/src/shape_inference.rs | 103 ++++++++--------------
 1 file changed, 39 insertions(+), 64 deletions(-)

diff --git a/rust/jstprove_onnx/src/shape_inference.rs b/rust/jstprove_onnx/src/shape_inference.rs
index 9ce0704..030d068 100644
--- a/rust/jstprove_onnx/src/shape_inference.rs
+++ b/rust/jstprove_onnx/src/shape_inference.rs
@@ -71,6 +71,27 @@ fn lookup_constant<'a>(
         .or_else(|| constant_tensors.get(name))
 }
 
+/// The elements of `td` at `positions`, keeping their type; `None` if one is out of range.
+fn select_elements(td: &TensorData, positions: &[usize], dims: Vec<i64>) -> Option<TensorData> {
+    let (mut float_data, mut int_data) = (vec![], vec![]);
+    if td.float_data.is_empty() {
+        for &p in positions {
+            int_data.push(*td.int_data.get(p)?);
+        }
+    } else {
+        for &p in positions {
+            float_data.push(*td.float_data.get(p)?);
+        }
+    }
+    Some(TensorData {
+        name: String::new(),
+        dims,
+        data_type: td.data_type,
+        float_data,
+        int_data,
+    })
+}
+
 fn fold_constants(
     layer: &LayerNode,
     shapes: &HashMap<String, Vec<usize>>,
@@ -160,37 +181,15 @@ fn fold_gather(
         return None;
     }
 
-    let data_vals = data_td.as_i64_vec();
     let indices_vals = indices_td.as_i64_vec();
     let indices_shape = indices_td.shape();
     let dim_size = data_shape[axis] as i64;
 
-    if data_shape.len() == 1 {
-        let gathered: Option<Vec<i64>> = indices_vals
-            .iter()
-            .map(|&idx| {
-                let idx = if idx < 0 { idx + dim_size } else { idx };
-                data_vals.get(idx as usize).copied()
-            })
-            .collect();
-        let gathered = gathered?;
-
-        let out_dims: Vec<i64> = indices_shape.iter().map(|&d| d as i64).collect();
-        return Some(TensorData {
-            name: String::new(),
-            dims: out_dims,
-            data_type: data_td.data_type,
-            float_data: vec![],
-            int_data: gathered,
-        });
-    }
-
     let outer_size: usize = data_shape[..axis].iter().product();
     let inner_size: usize = data_shape[axis + 1..].iter().product();
     let axis_size = data_shape[axis];
-    let n_indices = indices_vals.len();
 
-    let mut gathered = Vec::with_capacity(outer_size * n_indices * inner_size);
+    let mut positions = Vec::new();
     for o in 0..outer_size {
         for &idx_raw in &indices_vals {
             let idx = if idx_raw < 0 {
@@ -202,7 +201,7 @@ fn fold_gather(
                 return None;
             }
             let src_base = o * axis_size * inner_size + idx * inner_size;
-            gathered.extend_from_slice(&data_vals[src_base..src_base + inner_size]);
+            positions.extend(src_base..src_base + inner_size);
         }
     }
 
@@ -210,13 +209,7 @@ fn fold_gather(
     out_dims.extend(indices_shape.iter().map(|&d| d as i64));
     out_dims.extend(data_shape[axis + 1..].iter().map(|&d| d as i64));
 
-    Some(TensorData {
-        name: String::new(),
-        dims: out_dims,
-        data_type: data_td.data_type,
-        float_data: vec![],
-        int_data: gathered,
-    })
+    select_elements(data_td, &positions, out_dims)
 }
 
 #[allow(clippy::cast_possible_wrap, clippy::cast_sign_loss)]
@@ -517,8 +510,7 @@ fn fold_slice(
 
     let starts = starts_td.as_i64_vec();
     let ends = ends_td.as_i64_vec();
-    let data = input_td.as_i64_vec();
-    let dim = data.len() as i64;
+    let dim = input_td.float_data.len().max(input_td.int_data.len()) as i64;
 
     let axes: Vec<i64> = if let Some(axes_name) = layer.inputs.get(3).filter(|n| !n.is_empty()) {
         lookup_constant(axes_name, initializers, constant_tensors)?.as_i64_vec()
@@ -532,7 +524,10 @@ fn fold_slice(
         vec![1; starts.len()]
     };
 
-    if axes.len() != 1 || axes[0] != 0 {
+    if starts.len() != 1 || ends.len() != 1 || steps.len() != 1 {
+        return None;
+    }
+    if axes.len() != 1 || (axes[0] != 0 && axes[0] != -1) {
         return None;
     }
 
@@ -552,43 +547,23 @@ fn fold_slice(
     start = start.clamp(0, dim);
     end = end.clamp(0, dim);
 
-    let sliced: Vec<i64> = if step > 0 {
-        let mut v = Vec::new();
+    let mut positions: Vec<usize> = Vec::new();
+    if step > 0 {
         let mut i = start;
         while i < end {
-            v.push(data[i as usize]);
-            i += step;
+            positions.push(i as usize);
+            i = i.saturating_add(step);
         }
-        v
     } else {
-        if dim == 0 {
-            return Some(TensorData {
-                name: String::new(),
-                dims: vec![0],
-                data_type: input_td.data_type,
-                float_data: vec![],
-                int_data: vec![],
-            });
-        }
-        if start >= dim {
-            start = dim.saturating_sub(1);
-        }
-        let mut v = Vec::new();
-        let mut i = start;
+        let mut i = start.min(dim - 1);
         while i > end {
-            v.push(data[i as usize]);
-            i += step;
+            positions.push(i as usize);
+            i = i.saturating_add(step);
         }
-        v
-    };
+    }
 
-    Some(TensorData {
-        name: String::new(),
-        dims: vec![sliced.len() as i64],
-        data_type: input_td.data_type,
-        float_data: vec![],
-        int_data: sliced,
-    })
+    let out_dims = vec![positions.len() as i64];
+    select_elements(input_td, &positions, out_dims)
 }
 
 fn fold_cast(
-- 
2.43.0


From 3d81b20e85151e79732a9d7c034afe956a1fc02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:23 +0000
Subject: [PATCH 13/71] fix: reject tensors whose values are not stored in the
 model as declared

FLOAT16/BFLOAT16/complex/string/uint64 typed data was misread (half floats as their bit
patterns) or dropped, external data was read as an empty tensor, and data shorter or
longer than dims was accepted. Weights are now taken from the field their type calls for
and must match dims.
---
 rust/jstprove_onnx/src/parser.rs | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/rust/jstprove_onnx/src/parser.rs b/rust/jstprove_onnx/src/parser.rs
index 8fe2bd9..decbe3d 100644
--- a/rust/jstprove_onnx/src/parser.rs
+++ b/rust/jstprove_onnx/src/parser.rs
@@ -129,10 +129,26 @@ fn extract_tensor_data(tensor: &TensorProto) -> Result<TensorData> {
             other => bail!("unsupported tensor data type in raw_data: {other:?}"),
         }
     } else {
-        float_data.extend(tensor.float_data.iter().map(|f| *f as f64));
-        float_data.extend(tensor.double_data.iter().copied());
-        int_data.extend(tensor.int32_data.iter().map(|i| *i as i64));
-        int_data.extend(tensor.int64_data.iter().copied());
+        match dt {
+            DataType::Float => float_data.extend(tensor.float_data.iter().map(|f| *f as f64)),
+            DataType::Double => float_data.extend(tensor.double_data.iter().copied()),
+            DataType::Int64 => int_data.extend(tensor.int64_data.iter().copied()),
+            DataType::Int32
+            | DataType::Int16
+            | DataType::Int8
+            | DataType::Uint16
+            | DataType::Uint8
+            | DataType::Bool => int_data.extend(tensor.int32_data.iter().map(|i| *i as i64)),
+            other => bail!("unsupported tensor data type: {other:?}"),
+        }
+    }
+
+    let expected = dims
+        .iter()
+        .try_fold(1usize, |n, &d| n.checked_mul(usize::try_from(d).ok()?));
+    let found = float_data.len() + int_data.len();
+    if expected != Some(found) {
+        bail!("tensor '{name}' declares dims {dims:?} but holds {found} elements");
     }
 
     Ok(TensorData {
-- 
2.43.0


From bfef71aa7162bbf3047d685f4f8cd345e88c307f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:23 +0000
Subject: [PATCH 14/71] fix: unnamed nodes get distinct names

Layers are identified by node name (bit widths, folded BatchNorm tensors). Nodes named ""
all shared one identity, and the generated node_<i> could equal another node's own name.
---
 rust/jstprove_onnx/src/parser.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/rust/jstprove_onnx/src/parser.rs b/rust/jstprove_onnx/src/parser.rs
index decbe3d..0f3f6e1 100644
--- a/rust/jstprove_onnx/src/parser.rs
+++ b/rust/jstprove_onnx/src/parser.rs
@@ -1,4 +1,4 @@
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::path::Path;
 
 use anyhow::{bail, Context, Result};
@@ -161,9 +161,23 @@ fn extract_tensor_data(tensor: &TensorProto) -> Result<TensorData> {
 }
 
 fn parse_nodes(graph: &GraphProto) -> Result<Vec<ParsedNode>> {
+    let taken: HashSet<&str> = graph
+        .node
+        .iter()
+        .filter_map(|n| n.name.as_deref())
+        .collect();
     let mut result = Vec::new();
     for (idx, node) in graph.node.iter().enumerate() {
-        let name = node.name.clone().unwrap_or_else(|| format!("node_{idx}"));
+        let name = match node.name.as_deref() {
+            Some(name) if !name.is_empty() => name.to_string(),
+            _ => {
+                let mut fallback = format!("node_{idx}");
+                while taken.contains(fallback.as_str()) {
+                    fallback.push('_');
+                }
+                fallback
+            }
+        };
         let op_type = node.op_type.clone().unwrap_or_default();
         let domain = node.domain.clone().unwrap_or_default();
 
-- 
2.43.0


From f8e8a3d3b5ded43a773adaca999d464b10ccd142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:10 +0000
Subject: [PATCH 15/71] fix: topological sort rejects self-cycles and ignores
 omitted optional tensors

A node reading its own output was accepted. An omitted output and an omitted input, both
written as the empty name, were taken for a dependency, so valid models were refused as cyclic.
---
 rust/jstprove_onnx/src/graph.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/rust/jstprove_onnx/src/graph.rs b/rust/jstprove_onnx/src/graph.rs
index be49eef..5125b33 100644
--- a/rust/jstprove_onnx/src/graph.rs
+++ b/rust/jstprove_onnx/src/graph.rs
@@ -311,7 +311,8 @@ impl LayerNode {
 fn topological_sort(layers: &[LayerNode]) -> Result<Vec<usize>> {
     let mut output_to_layer: HashMap<&str, usize> = HashMap::new();
     for (idx, layer) in layers.iter().enumerate() {
-        for out in &layer.outputs {
+        // An empty name stands for an omitted optional output, not for a tensor.
+        for out in layer.outputs.iter().filter(|out| !out.is_empty()) {
             output_to_layer.insert(out.as_str(), idx);
         }
     }
@@ -322,10 +323,8 @@ fn topological_sort(layers: &[LayerNode]) -> Result<Vec<usize>> {
     for (idx, layer) in layers.iter().enumerate() {
         for input in &layer.inputs {
             if let Some(&dep_idx) = output_to_layer.get(input.as_str()) {
-                if dep_idx != idx {
-                    adj[dep_idx].push(idx);
-                    in_degree[idx] += 1;
-                }
+                adj[dep_idx].push(idx);
+                in_degree[idx] += 1;
             }
         }
     }
-- 
2.43.0


From 7295399d3f0f697b03ec2b9e773c45198d91c9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:10 +0000
Subject: [PATCH 16/71] fix: Constant nodes spelled with
 value_float(s)/value_int(s) keep their value

Only the 'value' tensor was read. Any other spelling left the tensor without a value: no
weight, no shape, and an assumed magnitude of 1 when bit widths are sized.
---
 rust/jstprove_onnx/src/graph.rs  |  2 ++
 rust/jstprove_onnx/src/parser.rs | 34 ++++++++++++++++++++++++++++++++
 2 files changed, 36 insertions(+)

diff --git a/rust/jstprove_onnx/src/graph.rs b/rust/jstprove_onnx/src/graph.rs
index 5125b33..a73e173 100644
--- a/rust/jstprove_onnx/src/graph.rs
+++ b/rust/jstprove_onnx/src/graph.rs
@@ -200,6 +200,8 @@ impl LayerGraph {
                     for out_name in &node.outputs {
                         constant_outputs.insert(out_name.clone(), td.clone());
                     }
+                } else {
+                    bail!("Constant {} has no dense numeric value", node.name);
                 }
             }
         }
diff --git a/rust/jstprove_onnx/src/parser.rs b/rust/jstprove_onnx/src/parser.rs
index 0f3f6e1..2819d47 100644
--- a/rust/jstprove_onnx/src/parser.rs
+++ b/rust/jstprove_onnx/src/parser.rs
@@ -190,6 +190,12 @@ fn parse_nodes(graph: &GraphProto) -> Result<Vec<ParsedNode>> {
             }
         }
 
+        if op_type == "Constant" && !attributes.contains_key("value") {
+            if let Some(value) = constant_value(&attributes) {
+                attributes.insert("value".to_string(), AttrValue::Tensor(value));
+            }
+        }
+
         result.push(ParsedNode {
             name,
             op_type,
@@ -202,6 +208,34 @@ fn parse_nodes(graph: &GraphProto) -> Result<Vec<ParsedNode>> {
     Ok(result)
 }
 
+/// The tensor a `Constant` node spells as `value_float(s)` or `value_int(s)`.
+fn constant_value(attributes: &HashMap<String, AttrValue>) -> Option<TensorData> {
+    let (data_type, dims, float_data, int_data) =
+        attributes.iter().find_map(|(k, v)| match (&**k, v) {
+            ("value_float", AttrValue::Float(f)) => {
+                Some((DataType::Float, vec![], vec![f64::from(*f)], vec![]))
+            }
+            ("value_int", AttrValue::Int(i)) => Some((DataType::Int64, vec![], vec![], vec![*i])),
+            ("value_floats", AttrValue::Floats(f)) => Some((
+                DataType::Float,
+                vec![f.len() as i64],
+                f.iter().map(|v| f64::from(*v)).collect(),
+                vec![],
+            )),
+            ("value_ints", AttrValue::Ints(i)) => {
+                Some((DataType::Int64, vec![i.len() as i64], vec![], i.clone()))
+            }
+            _ => None,
+        })?;
+    Some(TensorData {
+        name: String::new(),
+        dims,
+        data_type: data_type as i32,
+        float_data,
+        int_data,
+    })
+}
+
 fn parse_attribute(attr: &AttributeProto) -> Result<Option<AttrValue>> {
     let attr_type = attr.r#type.and_then(|t| AttributeType::try_from(t).ok());
 
-- 
2.43.0


From 32bd454d8f1acbeab30edfd01e33b86ae034fab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:11 +0000
Subject: [PATCH 17/71] fix: the zero bias added to a Conv gets a fresh name
 and the width of its type

Unnamed Convs (name "") shared one bias tensor whatever their channel counts, an existing
tensor of that name was shadowed, and half-precision biases were written with 4 bytes per element.
---
 rust/jstprove_onnx/src/compat.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/rust/jstprove_onnx/src/compat.rs b/rust/jstprove_onnx/src/compat.rs
index b7b1675..8e0446c 100644
--- a/rust/jstprove_onnx/src/compat.rs
+++ b/rust/jstprove_onnx/src/compat.rs
@@ -98,6 +98,13 @@ pub fn add_zero_bias_to_conv(path: &Path, output_path: &Path) -> Result<()> {
     let graph = model.graph.as_mut().context("model has no graph")?;
 
     let mut new_initializers = Vec::new();
+    let mut taken: HashSet<String> = graph
+        .node
+        .iter()
+        .flat_map(|n| n.input.iter().chain(&n.output).cloned())
+        .chain(graph.initializer.iter().filter_map(|i| i.name.clone()))
+        .chain(graph.input.iter().filter_map(|i| i.name.clone()))
+        .collect();
 
     for node in &mut graph.node {
         let op = node.op_type.as_deref().unwrap_or("");
@@ -124,13 +131,18 @@ pub fn add_zero_bias_to_conv(path: &Path, output_path: &Path) -> Result<()> {
         let node_id = node
             .name
             .clone()
+            .filter(|name| !name.is_empty())
             .or_else(|| node.output.first().cloned())
             .unwrap_or_else(|| weight_name.clone());
-        let bias_name = format!("{node_id}_zero_bias");
+        let mut bias_name = format!("{node_id}_zero_bias");
+        while !taken.insert(bias_name.clone()) {
+            bias_name.push('_');
+        }
 
         let data_type = weight_init.and_then(|i| i.data_type).unwrap_or(1);
         let raw_data = match DataType::try_from(data_type) {
             Ok(DataType::Double) => vec![0u8; out_channels * 8],
+            Ok(DataType::Float16 | DataType::Bfloat16) => vec![0u8; out_channels * 2],
             _ => vec![0u8; out_channels * 4],
         };
 
-- 
2.43.0


From b4afb3ac02808f755bdc4d4c8bc1c5e9e51d6bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:59 +0000
Subject: [PATCH 18/71] fix: the width of Max, Min and Clip covers all their
 operands

---
 rust/jstprove_onnx/src/quantizer.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/rust/jstprove_onnx/src/quantizer.rs b/rust/jstprove_onnx/src/quantizer.rs
index f89ac50..58022fe 100644
--- a/rust/jstprove_onnx/src/quantizer.rs
+++ b/rust/jstprove_onnx/src/quantizer.rs
@@ -1512,13 +1512,19 @@ fn compute_layer_bound(
             let m_in = get_input_bound(0);
             Ok(m_in)
         }
-        OpType::MaxPool | OpType::Max | OpType::Min => {
+        OpType::MaxPool => {
             let m_in = get_input_bound(0);
             Ok(m_in)
         }
-        OpType::Clip => {
-            let m_in = get_input_bound(0);
-            Ok(m_in)
+        // The comparisons range-check every operand, not only the first.
+        OpType::Max | OpType::Min | OpType::Clip => {
+            let mut max_bound = get_input_bound(0);
+            for (i, name) in layer.inputs.iter().enumerate().skip(1) {
+                if !name.is_empty() {
+                    max_bound = max_bound.max(get_input_bound(i));
+                }
+            }
+            Ok(max_bound)
         }
         OpType::Cast
         | OpType::Reshape
-- 
2.43.0


From 767a387a1dab5226da29de2ad5c0aa903ac0db21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:59 +0000
Subject: [PATCH 19/71] fix: activation bounds see the values of Constant and
 ConstantOfShape

---
 rust/jstprove_onnx/src/quantizer.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/rust/jstprove_onnx/src/quantizer.rs b/rust/jstprove_onnx/src/quantizer.rs
index 58022fe..180607e 100644
--- a/rust/jstprove_onnx/src/quantizer.rs
+++ b/rust/jstprove_onnx/src/quantizer.rs
@@ -1790,7 +1790,9 @@ fn compute_layer_bound(
             let m_in = get_input_bound(0);
             Ok(m_in)
         }
-        OpType::Constant => Ok(1.0),
+        OpType::Constant => Ok(value_attr_bound(layer).unwrap_or(1.0)),
+        // Filled with the `value` attribute; zeros when it is absent.
+        OpType::ConstantOfShape => Ok(value_attr_bound(layer).unwrap_or(1.0)),
         OpType::HardSwish => {
             let m_in = get_input_bound(0);
             Ok(m_in)
@@ -1837,8 +1839,7 @@ fn compute_layer_bound(
         | OpType::And
         | OpType::Equal
         | OpType::Greater
-        | OpType::Less
-        | OpType::ConstantOfShape => Ok(1.0),
+        | OpType::Less => Ok(1.0),
         OpType::Sin | OpType::Cos => Ok(1.0),
         OpType::Range => Ok(1.0),
         OpType::ReduceMax => {
@@ -1884,6 +1885,19 @@ fn compute_layer_bound(
     }
 }
 
+/// Largest magnitude in a layer's `value` tensor.
+fn value_attr_bound(layer: &LayerNode) -> Option<f64> {
+    match layer.attributes.get("value") {
+        Some(AttrValue::Tensor(td)) => Some(
+            td.as_f64_vec()
+                .iter()
+                .map(|v| v.abs())
+                .fold(0.0_f64, f64::max),
+        ),
+        _ => None,
+    }
+}
+
 fn is_range_check_op(op: OpType) -> bool {
     matches!(
         op,
-- 
2.43.0


From 95f0a36f6e20d742007fe10b944011594c9ec1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:59 +0000
Subject: [PATCH 20/71] fix: the bound of MatMul with a constant left vector
 sums its elements

---
 rust/jstprove_onnx/src/quantizer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rust/jstprove_onnx/src/quantizer.rs b/rust/jstprove_onnx/src/quantizer.rs
index 180607e..f4b87a3 100644
--- a/rust/jstprove_onnx/src/quantizer.rs
+++ b/rust/jstprove_onnx/src/quantizer.rs
@@ -1609,7 +1609,8 @@ fn compute_layer_bound(
                     if !vals.is_empty() {
                         let m_b = get_input_bound(1);
                         let d = w.shape();
-                        let n_cols = if d.len() >= 2 { *d.last().unwrap() } else { 1 };
+                        // A 1-D left factor is a single row.
+                        let n_cols = d.last().copied().unwrap_or(1);
                         let n_rows = if n_cols > 0 { vals.len() / n_cols } else { 1 };
                         let max_row_l1 = if n_rows > 0 && n_cols > 0 {
                             (0..n_rows)
-- 
2.43.0


From c7464c275351db27cdd3ba99605ab572d3bdf7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:59 +0000
Subject: [PATCH 21/71] fix: weights that do not fit the quantized range are an
 error, not saturated

---
 rust/jstprove_onnx/src/quantizer.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/rust/jstprove_onnx/src/quantizer.rs b/rust/jstprove_onnx/src/quantizer.rs
index f4b87a3..0f7ef92 100644
--- a/rust/jstprove_onnx/src/quantizer.rs
+++ b/rust/jstprove_onnx/src/quantizer.rs
@@ -157,12 +157,26 @@ fn quantize_layer_weights(layer: &mut LayerNode, alpha: i64) -> Result<()> {
         if let Some(input_name) = layer.inputs.get(input_pos) {
             if let Some(weight) = layer.weights.get_mut(input_name) {
                 if !weight.float_data.is_empty() {
-                    let factor = alpha.pow(scale_factor as u32);
+                    let factor = alpha.checked_pow(scale_factor as u32).ok_or_else(|| {
+                        anyhow::anyhow!(
+                            "layer {}: scale factor {alpha}^{scale_factor} overflows i64",
+                            layer.name
+                        )
+                    })?;
                     let scaled: Vec<i64> = weight
                         .float_data
                         .iter()
-                        .map(|v| (*v * factor as f64).round() as i64)
-                        .collect();
+                        .map(|v| {
+                            let q = (*v * factor as f64).round();
+                            anyhow::ensure!(
+                                q.abs() < i64::MAX as f64,
+                                "layer {}: weight {v} of '{input_name}' does not fit i64 at \
+                                 scale {factor}",
+                                layer.name
+                            );
+                            Ok(q as i64)
+                        })
+                        .collect::<Result<_>>()?;
                     weight.int_data = scaled;
                     weight.float_data.clear();
                 }
-- 
2.43.0


From 8d7b747abd2a35d2633b2255fe5a00d0971e4bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:59 +0000
Subject: [PATCH 22/71] fix: layers that share a name share the widest of their
 widths

---
 rust/jstprove_onnx/src/quantizer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rust/jstprove_onnx/src/quantizer.rs b/rust/jstprove_onnx/src/quantizer.rs
index 0f7ef92..7c5ac5f 100644
--- a/rust/jstprove_onnx/src/quantizer.rs
+++ b/rust/jstprove_onnx/src/quantizer.rs
@@ -1316,7 +1316,9 @@ fn compute_bounds(graph: &LayerGraph, config: &ScaleConfig) -> Result<HashMap<St
                 );
             }
             let n_bits = compute_n_bits(alpha, bound);
-            n_bits_config.insert(layer.name.clone(), n_bits);
+            // Layers are looked up by name; layers of one name share the widest.
+            let width = n_bits_config.entry(layer.name.clone()).or_insert(n_bits);
+            *width = n_bits.max(*width);
         }
 
         // TopK output[0] = values (bound = m_in), output[1] = indices
-- 
2.43.0


From c6d6d9864a5d5868e9e1c8196a958cec38ac075e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:59 +0000
Subject: [PATCH 23/71] fix: Pow becomes Sqrt only when the exponent cannot
 reshape the output

---
 rust/jstprove_onnx/src/quantizer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rust/jstprove_onnx/src/quantizer.rs b/rust/jstprove_onnx/src/quantizer.rs
index 7c5ac5f..dec7c95 100644
--- a/rust/jstprove_onnx/src/quantizer.rs
+++ b/rust/jstprove_onnx/src/quantizer.rs
@@ -324,7 +324,8 @@ fn rewrite_pow_sqrt(graph: &mut LayerGraph) {
             .and_then(|name| layer.weights.get(name))
             .is_some_and(|td| {
                 let vals = td.as_f64_vec();
-                vals.len() == 1 && (vals[0] - 0.5).abs() < 1e-9
+                // An exponent of higher rank also reshapes the output.
+                td.dims.len() <= 1 && vals.len() == 1 && (vals[0] - 0.5).abs() < 1e-9
             });
         if is_sqrt {
             let exp_name = layer.inputs[1].clone();
-- 
2.43.0


From f229bbc0a9d6b2c2a1dda83939bbbe28694f6838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:54 +0000
Subject: [PATCH 24/71] fix: ConstantOfShape refuses negative dimensions

---
 rust/jstprove_onnx/src/shape_inference.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/jstprove_onnx/src/shape_inference.rs b/rust/jstprove_onnx/src/shape_inference.rs
index 030d068..f18380d 100644
--- a/rust/jstprove_onnx/src/shape_inference.rs
+++ b/rust/jstprove_onnx/src/shape_inference.rs
@@ -1040,7 +1040,7 @@ fn infer_constant_of_shape(
             )
         })?;
 
-    let out_shape: Vec<usize> = shape_td.int_data.iter().map(|&v| v as usize).collect();
+    let out_shape = nonneg_to_usize(&shape_td.as_i64_vec(), "shape", &layer.name)?;
 
     Ok(layer
         .outputs
-- 
2.43.0


From f7aabb03f7c476c0532cbdd0a0a5debb9030a16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:54 +0000
Subject: [PATCH 25/71] fix: Conv and MaxPool parameters refuse dilations,
 implicit padding and ceil_mode

---
 rust/jstprove_onnx/src/layer_params.rs | 31 ++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/rust/jstprove_onnx/src/layer_params.rs b/rust/jstprove_onnx/src/layer_params.rs
index f0a9fd7..a5966d5 100644
--- a/rust/jstprove_onnx/src/layer_params.rs
+++ b/rust/jstprove_onnx/src/layer_params.rs
@@ -71,6 +71,34 @@ impl GemmParams {
     }
 }
 
+/// The windows computed here are dense: a layer that asks for gaps between the
+/// kernel elements, implicit padding or partial windows is refused.
+fn ensure_dense_windows(layer: &LayerNode) -> Result<()> {
+    ensure!(
+        layer
+            .get_ints_attr("dilations")
+            .is_none_or(|d| d.iter().all(|&v| v == 1)),
+        "{:?} {}: dilations are not supported",
+        layer.op_type,
+        layer.name
+    );
+    ensure!(
+        !layer
+            .get_string_attr("auto_pad")
+            .is_some_and(|p| p.starts_with("SAME")),
+        "{:?} {}: implicit padding (auto_pad) is not supported",
+        layer.op_type,
+        layer.name
+    );
+    ensure!(
+        layer.get_int_attr("ceil_mode").unwrap_or(0) == 0,
+        "{:?} {}: ceil_mode is not supported",
+        layer.op_type,
+        layer.name
+    );
+    Ok(())
+}
+
 pub struct ConvParams {
     pub input_name: String,
     pub weight_tensor_name: String,
@@ -126,6 +154,8 @@ impl ConvParams {
         let kh = w_shape[2];
         let kw = w_shape[3];
 
+        ensure_dense_windows(layer)?;
+
         let group = layer.get_int_attr("group").unwrap_or(1) as usize;
         ensure!(
             group == 1,
@@ -261,6 +291,7 @@ impl MaxPoolParams {
             kernel_shape[0],
             kernel_shape[1]
         );
+        ensure_dense_windows(layer)?;
         let pool_h = kernel_shape[0] as usize;
         let pool_w = kernel_shape[1] as usize;
 
-- 
2.43.0


From 96689a3616e114bf6b8d5a0c5dc51f269dca8053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:30 +0000
Subject: [PATCH 26/71] fix: the zero-bias rewrite refuses weights with an
 impossible channel count

---
 rust/jstprove_onnx/src/compat.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rust/jstprove_onnx/src/compat.rs b/rust/jstprove_onnx/src/compat.rs
index 8e0446c..3c4fdf4 100644
--- a/rust/jstprove_onnx/src/compat.rs
+++ b/rust/jstprove_onnx/src/compat.rs
@@ -123,7 +123,12 @@ pub fn add_zero_bias_to_conv(path: &Path, output_path: &Path) -> Result<()> {
                 if init.dims.is_empty() {
                     continue;
                 }
-                init.dims[0] as usize
+                // The weights hold at least one element per channel, in the model
+                // or in an external file: do not allocate what they cannot have.
+                usize::try_from(init.dims[0])
+                    .ok()
+                    .filter(|n| *n <= bytes.len().max(1 << 20))
+                    .with_context(|| format!("weight '{weight_name}' has invalid dims"))?
             }
             None => continue,
         };
-- 
2.43.0


From 99741b70cf6fa460aa75660546948bf06fd7141e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:38 +0000
Subject: [PATCH 27/71] fix: shape tracing in the quantizer counts the batch
 dimension of inputs

---
 rust/jstprove_onnx/src/quantizer.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/rust/jstprove_onnx/src/quantizer.rs b/rust/jstprove_onnx/src/quantizer.rs
index dec7c95..e52274c 100644
--- a/rust/jstprove_onnx/src/quantizer.rs
+++ b/rust/jstprove_onnx/src/quantizer.rs
@@ -431,9 +431,15 @@ fn broadcast_two(a: &[usize], b: &[usize]) -> Vec<usize> {
 fn propagate_shapes(graph: &LayerGraph) -> Result<HashMap<String, Vec<usize>>> {
     let mut shapes: HashMap<String, Vec<usize>> = HashMap::new();
 
-    // Seed with model-level input shapes.
+    // Seed with model-level input shapes. `input_shapes` leaves out the batch
+    // dimension of inputs of rank 2 and more, while axes and the NCHW arithmetic
+    // below count it: put it back wherever it is known to be missing.
     for (name, shape) in &graph.input_shapes {
-        shapes.insert(name.clone(), shape.clone());
+        let mut full = shape.clone();
+        if full.len() >= 2 {
+            full.insert(0, 1);
+        }
+        shapes.insert(name.clone(), full);
     }
 
     // Seed with all weight tensor shapes.
-- 
2.43.0


From a79946de1b426cfced3e09f0fd022f7d75bc06ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:53 +0000
Subject: [PATCH 28/71] fix: the quantizer's best-effort shape tracing no
 longer refuses valid Reshapes

---
 rust/jstprove_onnx/src/quantizer.rs | 54 +++++++----------------------
 1 file changed, 13 insertions(+), 41 deletions(-)

diff --git a/rust/jstprove_onnx/src/quantizer.rs b/rust/jstprove_onnx/src/quantizer.rs
index e52274c..cbd5e44 100644
--- a/rust/jstprove_onnx/src/quantizer.rs
+++ b/rust/jstprove_onnx/src/quantizer.rs
@@ -582,18 +582,11 @@ fn propagate_shapes(graph: &LayerGraph) -> Result<HashMap<String, Vec<usize>>> {
                                 if allowzero {
                                     dims.push(Some(0));
                                 } else {
-                                    // Copy the source dim only when
-                                    // that dim is actually known.
-                                    // Falling back to 0 here would
-                                    // silently conflate "unknown"
-                                    // with "empty" and produce an
-                                    // empty tensor for a reshape
-                                    // whose source shape the shape
-                                    // tracer couldn't model.
-                                    match in_shape.and_then(|s| s.get(i).copied()) {
-                                        Some(v) => dims.push(Some(v)),
-                                        None => dims.push(None),
-                                    }
+                                    // The traced source can have fewer dims
+                                    // than the real one; a dim it lacks does
+                                    // not change the element count.
+                                    let copied = in_shape.map(|s| s.get(i).copied().unwrap_or(1));
+                                    dims.push(copied);
                                 }
                             } else if d > 0 {
                                 dims.push(Some(d as usize));
@@ -627,15 +620,12 @@ fn propagate_shapes(graph: &LayerGraph) -> Result<HashMap<String, Vec<usize>>> {
                                         layer.name
                                     );
                                 }
-                                if total % known != 0 {
-                                    anyhow::bail!(
-                                        "Reshape layer '{}': input total {} is not divisible by known dims product {}",
-                                        layer.name,
-                                        total,
-                                        known
-                                    );
-                                }
-                                let inferred = total / known;
+                                // Shape tracing falls back to best-effort shapes
+                                // for ops it does not fully model, so a total that
+                                // does not fit says nothing about the model (shape
+                                // inference validates that). Round up: a larger
+                                // dimension only widens the bounds.
+                                let inferred = total.div_ceil(known).max(1);
                                 for d in &mut dims {
                                     if d.is_none() {
                                         *d = Some(inferred);
@@ -648,27 +638,9 @@ fn propagate_shapes(graph: &LayerGraph) -> Result<HashMap<String, Vec<usize>>> {
                                     layer.name
                                 );
                             }
-                        } else if let Some(total) = input_total {
-                            // n_unknown == 0: every output dim is
-                            // fixed, so the target element count
-                            // is determined.  Validate against the
-                            // source total when known; skip the
-                            // check when unknown rather than
-                            // failing closed (shape tracing uses
-                            // best-effort fallbacks for ops it
-                            // does not fully model, so input_total
-                            // can be stale or wrong for valid
-                            // models).
-                            let target_total: usize = dims.iter().filter_map(|&d| d).product();
-                            if target_total != total {
-                                anyhow::bail!(
-                                    "Reshape layer '{}': target total element count {} does not match input total {}",
-                                    layer.name,
-                                    target_total,
-                                    total
-                                );
-                            }
                         }
+                        // n_unknown == 0: every output dim is fixed by the
+                        // target, whatever was traced for the input.
 
                         // All None should be resolved by now; any remaining None is an error.
                         dims.into_iter()
-- 
2.43.0


From 200ed362494006daba723df1e41ecd7daa6889d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:11 +0000
Subject: [PATCH 29/71] fix: BatchNormalization layers that share a name no
 longer share folded parameters

---
 rust/jstprove_onnx/src/quantizer.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rust/jstprove_onnx/src/quantizer.rs b/rust/jstprove_onnx/src/quantizer.rs
index cbd5e44..c8e17d6 100644
--- a/rust/jstprove_onnx/src/quantizer.rs
+++ b/rust/jstprove_onnx/src/quantizer.rs
@@ -265,8 +265,10 @@ fn fold_batchnorm_params(layer: &mut LayerNode) -> Result<()> {
         add.push(bias[i] - mean[i] * m);
     }
 
-    let mul_tensor_name = format!("{}_folded_mul", layer.name);
-    let add_tensor_name = format!("{}_folded_add", layer.name);
+    // Weights are collected by tensor name; only outputs are unique, node names are not.
+    let stem = layer.outputs.first().unwrap_or(&layer.name);
+    let mul_tensor_name = format!("{stem}_folded_mul");
+    let add_tensor_name = format!("{stem}_folded_add");
 
     layer.weights.insert(
         mul_tensor_name.clone(),
-- 
2.43.0


From 082d75ece1732b370ff6a8bb96ed40d1537f3412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:18 +0000
Subject: [PATCH 30/71] fix: shape tracing keeps the shape of Constant operands

---
 rust/jstprove_onnx/src/quantizer.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rust/jstprove_onnx/src/quantizer.rs b/rust/jstprove_onnx/src/quantizer.rs
index c8e17d6..05a627f 100644
--- a/rust/jstprove_onnx/src/quantizer.rs
+++ b/rust/jstprove_onnx/src/quantizer.rs
@@ -470,6 +470,8 @@ fn propagate_shapes(graph: &LayerGraph) -> Result<HashMap<String, Vec<usize>>> {
             .cloned();
 
         let out_shape: Vec<usize> = match layer.op_type {
+            // Seeded above from the value itself.
+            OpType::Constant => continue,
             OpType::ReduceSum => {
                 // Compute the output shape from axes + keepdims.
                 if let Some(ref in_shape) = input_shape {
-- 
2.43.0


From dad55654a84f228e3b4f73fb856ac284bc95c048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:20 +0000
Subject: [PATCH 31/71] fix: refuse tensors too large to count instead of
 overflowing on them

---
 rust/jstprove_onnx/src/layer_params.rs    | 18 ++++++-
 rust/jstprove_onnx/src/quantizer.rs       | 40 +++++++++++-----
 rust/jstprove_onnx/src/shape_inference.rs | 58 +++++++++++++++++------
 3 files changed, 87 insertions(+), 29 deletions(-)

diff --git a/rust/jstprove_onnx/src/layer_params.rs b/rust/jstprove_onnx/src/layer_params.rs
index a5966d5..490f676 100644
--- a/rust/jstprove_onnx/src/layer_params.rs
+++ b/rust/jstprove_onnx/src/layer_params.rs
@@ -200,8 +200,22 @@ impl ConvParams {
         let stride_h = raw_stride_h as usize;
         let stride_w = raw_stride_w as usize;
 
-        let padded_h = in_h + pad_top + pad_bottom;
-        let padded_w = in_w + pad_left + pad_right;
+        let padded = |dim: usize, begin: usize, end: usize| {
+            dim.checked_add(begin)
+                .and_then(|v| v.checked_add(end))
+                .filter(|&v| v < usize::MAX)
+                .ok_or_else(|| {
+                    anyhow::anyhow!(
+                        "Conv {} padded size overflow: {} + {} + {}",
+                        layer.name,
+                        dim,
+                        begin,
+                        end
+                    )
+                })
+        };
+        let padded_h = padded(in_h, pad_top, pad_bottom)?;
+        let padded_w = padded(in_w, pad_left, pad_right)?;
         ensure!(
             padded_h >= kh && padded_w >= kw,
             "Conv {}: padded input {}x{} smaller than kernel {}x{}",
diff --git a/rust/jstprove_onnx/src/quantizer.rs b/rust/jstprove_onnx/src/quantizer.rs
index 05a627f..acf487b 100644
--- a/rust/jstprove_onnx/src/quantizer.rs
+++ b/rust/jstprove_onnx/src/quantizer.rs
@@ -5,6 +5,7 @@ use anyhow::Result;
 use super::graph::{LayerGraph, LayerNode, OpType};
 use super::ops;
 use super::parser::{AttrValue, TensorData};
+use super::shape_inference::ensure_addressable;
 
 pub const DEFAULT_SCALE_BASE: u64 = 2;
 pub const DEFAULT_SCALE_EXPONENT: u32 = 18;
@@ -441,12 +442,14 @@ fn propagate_shapes(graph: &LayerGraph) -> Result<HashMap<String, Vec<usize>>> {
         if full.len() >= 2 {
             full.insert(0, 1);
         }
+        ensure_addressable(name, &full)?;
         shapes.insert(name.clone(), full);
     }
 
     // Seed with all weight tensor shapes.
     for layer in &graph.layers {
         for (name, td) in &layer.weights {
+            ensure_addressable(name, &td.shape())?;
             shapes.insert(name.clone(), td.shape());
         }
     }
@@ -455,6 +458,7 @@ fn propagate_shapes(graph: &LayerGraph) -> Result<HashMap<String, Vec<usize>>> {
         if layer.op_type == OpType::Constant {
             if let Some(AttrValue::Tensor(td)) = layer.attributes.get("value") {
                 for out_name in &layer.outputs {
+                    ensure_addressable(out_name, &td.shape())?;
                     shapes.insert(out_name.clone(), td.shape());
                 }
             }
@@ -617,7 +621,10 @@ fn propagate_shapes(graph: &LayerGraph) -> Result<HashMap<String, Vec<usize>>> {
                         }
                         if n_unknown == 1 {
                             if let Some(total) = input_total {
-                                let known: usize = dims.iter().filter_map(|&d| d).product();
+                                let known = dims
+                                    .iter()
+                                    .filter_map(|&d| d)
+                                    .fold(1usize, |n, d| n.saturating_mul(d));
                                 if known == 0 {
                                     anyhow::bail!(
                                         "Reshape layer '{}': cannot infer -1 dimension when known product is 0",
@@ -687,7 +694,7 @@ fn propagate_shapes(graph: &LayerGraph) -> Result<HashMap<String, Vec<usize>>> {
                         *dim = in_shapes
                             .iter()
                             .map(|s| s.get(ax).copied().unwrap_or(0))
-                            .sum();
+                            .fold(0usize, usize::saturating_add);
                     }
                     out
                 } else {
@@ -718,7 +725,7 @@ fn propagate_shapes(graph: &LayerGraph) -> Result<HashMap<String, Vec<usize>>> {
                             let s = strides.get(i).copied().unwrap_or(1).max(1);
                             let ph = pads.get(i).copied().unwrap_or(0);
                             let pe = pads.get(spatial_dims + i).copied().unwrap_or(0);
-                            let padded = in_d + ph + pe;
+                            let padded = in_d.saturating_add(ph).saturating_add(pe);
                             let out_d = padded.saturating_sub(k) / s + 1;
                             out.push(out_d);
                         }
@@ -768,8 +775,9 @@ fn propagate_shapes(graph: &LayerGraph) -> Result<HashMap<String, Vec<usize>>> {
                                 let d = dilations.get(i).copied().unwrap_or(1).max(1);
                                 let ph = pads.get(i).copied().unwrap_or(0);
                                 let pe = pads.get(spatial_dims + i).copied().unwrap_or(0);
-                                let effective_k = (k - 1) * d + 1;
-                                let out_d = (in_d + ph + pe).saturating_sub(effective_k) / s + 1;
+                                let effective_k = (k - 1).saturating_mul(d).saturating_add(1);
+                                let padded = in_d.saturating_add(ph).saturating_add(pe);
+                                let out_d = padded.saturating_sub(effective_k) / s + 1;
                                 out.push(out_d);
                             }
                             out
@@ -791,7 +799,7 @@ fn propagate_shapes(graph: &LayerGraph) -> Result<HashMap<String, Vec<usize>>> {
                             let w_shape = w.shape();
                             // Weight: [C_in, C_out/group, *kernel]
                             let groups = layer.get_int_attr("group").unwrap_or(1).max(1) as usize;
-                            let c_out = w_shape.get(1).copied().unwrap_or(1) * groups;
+                            let c_out = w_shape.get(1).copied().unwrap_or(1).saturating_mul(groups);
                             let spatial_dims = in_shape.len().saturating_sub(2);
                             let kernel: Vec<usize> = layer
                                 .get_ints_attr("kernel_shape")
@@ -825,10 +833,17 @@ fn propagate_shapes(graph: &LayerGraph) -> Result<HashMap<String, Vec<usize>>> {
                                 let k = kernel.get(i).copied().unwrap_or(1).max(1);
                                 let s = strides.get(i).copied().unwrap_or(1).max(1);
                                 let d = dilations.get(i).copied().unwrap_or(1).max(1);
-                                let pad = pads.get(i).copied().unwrap_or(0)
-                                    + pads.get(spatial_dims + i).copied().unwrap_or(0);
+                                let pad = pads
+                                    .get(i)
+                                    .copied()
+                                    .unwrap_or(0)
+                                    .saturating_add(pads.get(spatial_dims + i).copied().unwrap_or(0));
                                 let op = out_padding.get(i).copied().unwrap_or(0);
-                                let out_d = s * in_d.saturating_sub(1) + (k - 1) * d + 1 + op;
+                                let out_d = s
+                                    .saturating_mul(in_d.saturating_sub(1))
+                                    .saturating_add((k - 1).saturating_mul(d))
+                                    .saturating_add(1)
+                                    .saturating_add(op);
                                 out.push(out_d.saturating_sub(pad));
                             }
                             out
@@ -1052,7 +1067,7 @@ fn propagate_shapes(graph: &LayerGraph) -> Result<HashMap<String, Vec<usize>>> {
                                     pads_raw.get(i).copied().unwrap_or(0).max(0) as usize;
                                 let pad_end =
                                     pads_raw.get(rank + i).copied().unwrap_or(0).max(0) as usize;
-                                d + pad_begin + pad_end
+                                d.saturating_add(pad_begin).saturating_add(pad_end)
                             })
                             .collect()
                     }
@@ -1136,7 +1151,7 @@ fn propagate_shapes(graph: &LayerGraph) -> Result<HashMap<String, Vec<usize>>> {
                         let s_norm = if s < 0 { s + dim } else { s };
                         let e_norm = if e < 0 { e + dim } else { e };
                         let len = (e_norm - s_norm).max(0);
-                        out[ax] = ((len + step - 1) / step).max(0) as usize;
+                        out[ax] = (len as usize).div_ceil(step as usize);
                     }
                     out
                 } else {
@@ -1169,7 +1184,7 @@ fn propagate_shapes(graph: &LayerGraph) -> Result<HashMap<String, Vec<usize>>> {
                     in_shape
                         .iter()
                         .enumerate()
-                        .map(|(i, &d)| d * repeats.get(i).copied().unwrap_or(1))
+                        .map(|(i, &d)| d.saturating_mul(repeats.get(i).copied().unwrap_or(1)))
                         .collect()
                 } else {
                     vec![]
@@ -1218,6 +1233,7 @@ fn propagate_shapes(graph: &LayerGraph) -> Result<HashMap<String, Vec<usize>>> {
         };
 
         for out_name in &layer.outputs {
+            ensure_addressable(out_name, &out_shape)?;
             shapes.insert(out_name.clone(), out_shape.clone());
         }
     }
diff --git a/rust/jstprove_onnx/src/shape_inference.rs b/rust/jstprove_onnx/src/shape_inference.rs
index f18380d..e58bc82 100644
--- a/rust/jstprove_onnx/src/shape_inference.rs
+++ b/rust/jstprove_onnx/src/shape_inference.rs
@@ -13,6 +13,7 @@ pub fn infer_all_shapes(
     let mut shapes: HashMap<String, Vec<usize>> = HashMap::new();
 
     for init in model.initializers.values() {
+        ensure_addressable(&init.name, &init.shape())?;
         shapes.insert(init.name.clone(), init.shape());
     }
 
@@ -22,6 +23,7 @@ pub fn infer_all_shapes(
             .iter()
             .map(|&d| if d < 0 { 1 } else { d as usize })
             .collect();
+        ensure_addressable(&io.name, &shape)?;
         shapes.insert(io.name.clone(), shape);
     }
 
@@ -32,6 +34,7 @@ pub fn infer_all_shapes(
             .map(|&d| if d < 0 { 1 } else { d as usize })
             .collect();
         if !shape.is_empty() {
+            ensure_addressable(&io.name, &shape)?;
             shapes.insert(io.name.clone(), shape);
         }
     }
@@ -41,6 +44,7 @@ pub fn infer_all_shapes(
         if node.op_type == "Constant" {
             if let Some(AttrValue::Tensor(td)) = node.attributes.get("value") {
                 if let Some(out) = node.outputs.first() {
+                    ensure_addressable(out, &td.shape())?;
                     shapes.insert(out.clone(), td.shape());
                     constant_tensors.insert(out.clone(), td.clone());
                 }
@@ -53,6 +57,7 @@ pub fn infer_all_shapes(
         let output_shapes =
             infer_layer_output_shape(layer, &shapes, &model.initializers, &constant_tensors)?;
         for (name, shape) in output_shapes {
+            ensure_addressable(&name, &shape)?;
             shapes.insert(name, shape);
         }
         fold_constants(layer, &shapes, &model.initializers, &mut constant_tensors);
@@ -61,6 +66,18 @@ pub fn infer_all_shapes(
     Ok(shapes)
 }
 
+/// Element counts are computed from the dimensions everywhere below, so a tensor
+/// too large to address is refused up front rather than counted modulo 2^64.
+pub(crate) fn ensure_addressable(name: &str, shape: &[usize]) -> Result<()> {
+    let count = shape
+        .iter()
+        .try_fold(1usize, |n, &d| n.checked_mul(d.max(1)));
+    if !count.is_some_and(|n| n <= isize::MAX as usize) {
+        bail!("tensor {name}: shape {shape:?} has too many elements");
+    }
+    Ok(())
+}
+
 fn lookup_constant<'a>(
     name: &str,
     initializers: &'a HashMap<String, TensorData>,
@@ -624,7 +641,7 @@ fn fold_reshape(
             known_product *= orig[i];
         } else if d > 0 {
             out_dims.push(d);
-            known_product *= d as usize;
+            known_product = known_product.saturating_mul(d as usize);
         } else {
             return None;
         }
@@ -676,7 +693,8 @@ fn ensure_no_implicit_padding(
     ) {
         return Ok(());
     }
-    let covered = in_dim.div_ceil(stride).saturating_sub(1) * stride + effective_kernel;
+    let covered =
+        (in_dim.div_ceil(stride).saturating_sub(1) * stride).saturating_add(effective_kernel);
     if covered > in_dim {
         bail!(
             "layer {}: auto_pad=SAME_* needs implicit padding at spatial dim {spatial_dim}; \
@@ -914,8 +932,10 @@ fn infer_conv(
         if kernel_shape[i] == 0 {
             bail!("layer {}: Conv kernel_shape[{i}] is zero", layer.name);
         }
-        let effective_kernel = (kernel_shape[i] - 1) * dilations[i] + 1;
-        let padded = in_dim + pad;
+        let effective_kernel = (kernel_shape[i] - 1)
+            .saturating_mul(dilations[i])
+            .saturating_add(1);
+        let padded = in_dim.saturating_add(pad);
         if strides[i] == 0 {
             bail!(
                 "layer {}: Conv stride is zero at spatial dim {i}",
@@ -1136,14 +1156,16 @@ fn infer_maxpool(
     for i in 0..spatial_dims {
         let in_dim = input_shape[2 + i];
         let pad = pads[i] + pads[spatial_dims + i];
-        let padded = in_dim + pad;
+        let padded = in_dim.saturating_add(pad);
         if strides[i] == 0 {
             bail!(
                 "layer {}: MaxPool stride is zero at spatial dim {i}",
                 layer.name
             );
         }
-        let effective_kernel = (kernel[i] - 1) * dilations[i] + 1;
+        let effective_kernel = (kernel[i] - 1)
+            .saturating_mul(dilations[i])
+            .saturating_add(1);
         if padded < effective_kernel {
             bail!(
                 "layer {}: MaxPool padded input {padded} < effective kernel {effective_kernel} at spatial dim {i}",
@@ -1291,7 +1313,7 @@ fn infer_reshape(
                         input_shape.len()
                     );
                 }
-                known_product *= input_shape[i];
+                known_product = known_product.saturating_mul(input_shape[i]);
             }
         } else if d < -1 {
             bail!(
@@ -1299,7 +1321,7 @@ fn infer_reshape(
                 layer.name
             );
         } else {
-            known_product *= d as usize;
+            known_product = known_product.saturating_mul(d as usize);
         }
     }
 
@@ -2733,7 +2755,7 @@ fn infer_split(
         );
     }
 
-    let total: usize = split_sizes.iter().sum();
+    let total = split_sizes.iter().fold(0usize, |n, &d| n.saturating_add(d));
     if total != axis_dim {
         bail!(
             "layer {}: Split split_sizes sum {} != axis_dim {}",
@@ -2836,7 +2858,7 @@ fn infer_conv_transpose(
         );
     }
     let group = group_raw as usize;
-    let c_out = c_out_per_group * group;
+    let c_out = c_out_per_group.saturating_mul(group);
 
     let kernel_shape = if let Some(v) = layer.get_ints_attr("kernel_shape") {
         nonneg_to_usize(v, "kernel_shape", &layer.name)?
@@ -2955,11 +2977,11 @@ fn infer_conv_transpose(
                 layer.name
             );
         }
-        let effective_kernel = (kernel_shape[i] - 1) * d + 1;
+        let effective_kernel = (kernel_shape[i] - 1).saturating_mul(d).saturating_add(1);
         if matches!(
             layer.get_string_attr("auto_pad"),
             Some("SAME_UPPER" | "SAME_LOWER")
-        ) && effective_kernel + out_pad != strides[i]
+        ) && effective_kernel.saturating_add(out_pad) != strides[i]
         {
             bail!(
                 "layer {}: auto_pad=SAME_* needs implicit padding at spatial dim {i}; \
@@ -2968,9 +2990,15 @@ fn infer_conv_transpose(
             );
         }
         // Compute in signed space to detect invalid (negative) output dims.
-        let out_dim_signed = strides[i] as i64 * (in_dim as i64 - 1) + effective_kernel as i64
-            - pad as i64
-            + out_pad as i64;
+        let out_dim_signed = strides[i] as i128 * (in_dim as i128 - 1) + effective_kernel as i128
+            - pad as i128
+            + out_pad as i128;
+        if out_dim_signed > i128::from(i64::MAX) {
+            bail!(
+                "layer {}: ConvTranspose output spatial dim[{i}] overflows ({out_dim_signed})",
+                layer.name
+            );
+        }
         if out_dim_signed <= 0 {
             bail!(
                 "layer {}: ConvTranspose output spatial dim[{i}] would be non-positive \
-- 
2.43.0


From 476bb44b0982de9cfbbcacd1ec40f5498a51e211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:58 +0000
Subject: [PATCH 32/71] fix: rewrites and tracing see reduced shapes;
 zero-sized guesses no longer refuse Reshapes

---
 rust/jstprove_onnx/src/quantizer.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/rust/jstprove_onnx/src/quantizer.rs b/rust/jstprove_onnx/src/quantizer.rs
index acf487b..4e49f70 100644
--- a/rust/jstprove_onnx/src/quantizer.rs
+++ b/rust/jstprove_onnx/src/quantizer.rs
@@ -317,6 +317,7 @@ pub fn compute_max_bound(graph: &mut LayerGraph) -> Result<f64> {
 }
 
 fn rewrite_pow_sqrt(graph: &mut LayerGraph) {
+    let shapes = propagate_shapes(graph).unwrap_or_default();
     for layer in &mut graph.layers {
         if layer.op_type != OpType::Pow {
             continue;
@@ -327,8 +328,11 @@ fn rewrite_pow_sqrt(graph: &mut LayerGraph) {
             .and_then(|name| layer.weights.get(name))
             .is_some_and(|td| {
                 let vals = td.as_f64_vec();
-                // An exponent of higher rank also reshapes the output.
-                td.dims.len() <= 1 && vals.len() == 1 && (vals[0] - 0.5).abs() < 1e-9
+                // An exponent of higher rank than the base also reshapes the output.
+                let scalar_base = shapes.get(&layer.inputs[0]).is_some_and(Vec::is_empty);
+                td.dims.len() <= usize::from(!scalar_base)
+                    && vals.len() == 1
+                    && (vals[0] - 0.5).abs() < 1e-9
             });
         if is_sqrt {
             let exp_name = layer.inputs[1].clone();
@@ -476,7 +480,7 @@ fn propagate_shapes(graph: &LayerGraph) -> Result<HashMap<String, Vec<usize>>> {
         let out_shape: Vec<usize> = match layer.op_type {
             // Seeded above from the value itself.
             OpType::Constant => continue,
-            OpType::ReduceSum => {
+            OpType::ReduceSum | OpType::ReduceMean | OpType::ReduceMax => {
                 // Compute the output shape from axes + keepdims.
                 if let Some(ref in_shape) = input_shape {
                     let rank = in_shape.len();
@@ -625,7 +629,7 @@ fn propagate_shapes(graph: &LayerGraph) -> Result<HashMap<String, Vec<usize>>> {
                                     .iter()
                                     .filter_map(|&d| d)
                                     .fold(1usize, |n, d| n.saturating_mul(d));
-                                if known == 0 {
+                                if allowzero && raw.contains(&0) {
                                     anyhow::bail!(
                                         "Reshape layer '{}': cannot infer -1 dimension when known product is 0",
                                         layer.name
@@ -636,7 +640,7 @@ fn propagate_shapes(graph: &LayerGraph) -> Result<HashMap<String, Vec<usize>>> {
                                 // does not fit says nothing about the model (shape
                                 // inference validates that). Round up: a larger
                                 // dimension only widens the bounds.
-                                let inferred = total.div_ceil(known).max(1);
+                                let inferred = total.div_ceil(known.max(1)).max(1);
                                 for d in &mut dims {
                                     if d.is_none() {
                                         *d = Some(inferred);
-- 
2.43.0


From 56756fe7f65e429efba398ae29faf7bf080af3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:52 +0000
Subject: [PATCH 33/71] fix: shape tracing follows broadcasting, resizing and
 index shapes

---
 rust/jstprove_onnx/src/quantizer.rs | 66 ++++++++++++++++++++++++++---
 1 file changed, 60 insertions(+), 6 deletions(-)

diff --git a/rust/jstprove_onnx/src/quantizer.rs b/rust/jstprove_onnx/src/quantizer.rs
index 4e49f70..cbd83f1 100644
--- a/rust/jstprove_onnx/src/quantizer.rs
+++ b/rust/jstprove_onnx/src/quantizer.rs
@@ -499,15 +499,15 @@ fn propagate_shapes(graph: &LayerGraph) -> Result<HashMap<String, Vec<usize>>> {
                                     .collect::<Vec<usize>>()
                             })
                         });
+                        // No axes: per ONNX spec, means reduce all unless
+                        // noop_with_empty_axes == 1.
+                        let noop = matches!(
+                            layer.attributes.get("noop_with_empty_axes"),
+                            Some(AttrValue::Int(1))
+                        );
                         match from_weight {
                             Some(v) if !v.is_empty() => v,
                             Some(_) => {
-                                // Empty axes tensor: per ONNX spec, means reduce all
-                                // unless noop_with_empty_axes == 1.
-                                let noop = matches!(
-                                    layer.attributes.get("noop_with_empty_axes"),
-                                    Some(AttrValue::Int(1))
-                                );
                                 if noop {
                                     vec![]
                                 } else {
@@ -520,6 +520,7 @@ fn propagate_shapes(graph: &LayerGraph) -> Result<HashMap<String, Vec<usize>>> {
                                     Some(AttrValue::Ints(v)) => {
                                         v.iter().map(|&a| normalize_axis(a)).collect()
                                     }
+                                    _ if noop => vec![],
                                     // No axes = reduce all.
                                     _ => (0..rank).collect(),
                                 }
@@ -877,6 +878,59 @@ fn propagate_shapes(graph: &LayerGraph) -> Result<HashMap<String, Vec<usize>>> {
                     _ => input_shape.unwrap_or_default(),
                 }
             }
+            // Elementwise operators: the broadcast of all operand shapes.
+            OpType::Add
+            | OpType::Sub
+            | OpType::Mul
+            | OpType::Div
+            | OpType::Max
+            | OpType::Min
+            | OpType::Pow
+            | OpType::And
+            | OpType::Equal
+            | OpType::Greater
+            | OpType::Less => layer
+                .inputs
+                .iter()
+                .filter_map(|n| shapes.get(n.as_str()))
+                .fold(vec![], |acc, s| broadcast_two(&acc, s)),
+            // GatherElements: output has the shape of the indices.
+            OpType::GatherElements => layer
+                .inputs
+                .get(1)
+                .and_then(|n| shapes.get(n.as_str()))
+                .cloned()
+                .or(input_shape)
+                .unwrap_or_default(),
+            // GridSample: [N, C, H_in, W_in] sampled at [N, H_out, W_out, 2].
+            OpType::GridSample => {
+                let mut out = input_shape.unwrap_or_default();
+                if let Some(grid) = layer.inputs.get(1).and_then(|n| shapes.get(n.as_str())) {
+                    if out.len() == 4 && grid.len() == 4 {
+                        out[2..].copy_from_slice(&grid[1..3]);
+                    }
+                }
+                out
+            }
+            // Resize: output dims from constant sizes, else from constant scales.
+            OpType::Resize => {
+                let mut out = input_shape.unwrap_or_default();
+                let param = |i: usize| {
+                    layer
+                        .inputs
+                        .get(i)
+                        .and_then(|n| layer.weights.get(n.as_str()))
+                        .filter(|td| td.total_elements() == out.len())
+                };
+                if let Some(sizes) = param(3) {
+                    out = sizes.as_i64_vec().iter().map(|&d| d.max(0) as usize).collect();
+                } else if let Some(scales) = param(2) {
+                    for (d, s) in out.iter_mut().zip(scales.as_f64_vec()) {
+                        *d = (*d as f64 * s).floor() as usize;
+                    }
+                }
+                out
+            }
             // Split: each output gets a slice along the split axis.
             OpType::Split => {
                 if let Some(ref in_shape) = input_shape {
-- 
2.43.0


From 71f119522f77840ee4943fb81e564c30ab3dbdba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:54 +0000
Subject: [PATCH 34/71] fix: bounds cover the values a Range produces

---
 rust/jstprove_onnx/src/quantizer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rust/jstprove_onnx/src/quantizer.rs b/rust/jstprove_onnx/src/quantizer.rs
index cbd83f1..d7cd3d7 100644
--- a/rust/jstprove_onnx/src/quantizer.rs
+++ b/rust/jstprove_onnx/src/quantizer.rs
@@ -1915,7 +1915,8 @@ fn compute_layer_bound(
         | OpType::Greater
         | OpType::Less => Ok(1.0),
         OpType::Sin | OpType::Cos => Ok(1.0),
-        OpType::Range => Ok(1.0),
+        // Range: every value lies between start and limit.
+        OpType::Range => Ok(get_input_bound(0).max(get_input_bound(1))),
         OpType::ReduceMax => {
             let m_in = get_input_bound(0);
             Ok(m_in)
-- 
2.43.0


From 02165f4fcea74b58b3b582e7149ef47a1e2b1d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:41 +0000
Subject: [PATCH 35/71] fix: quantize the constant operands of elementwise
 layers

---
 rust/jstprove_onnx/src/ops.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/rust/jstprove_onnx/src/ops.rs b/rust/jstprove_onnx/src/ops.rs
index 16cc47e..8788de8 100644
--- a/rust/jstprove_onnx/src/ops.rs
+++ b/rust/jstprove_onnx/src/ops.rs
@@ -46,6 +46,17 @@ pub fn get_scale_plan(op: OpType) -> HashMap<usize, usize> {
             m.insert(2, 2);
             m
         }
+        // Elementwise operands combine with activations at α¹.
+        OpType::Add
+        | OpType::Sub
+        | OpType::Mul
+        | OpType::Max
+        | OpType::Min
+        | OpType::Equal
+        | OpType::Greater
+        | OpType::Less => HashMap::from([(0, 1), (1, 1)]),
+        OpType::Clip => HashMap::from([(1, 1), (2, 1)]),
+        OpType::Pad => HashMap::from([(2, 1)]),
         _ => HashMap::new(),
     }
 }
-- 
2.43.0


From 0469c080389636b78353bb487948476ec7948dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:57 +0000
Subject: [PATCH 36/71] fix: count lookups of negative keys by the whole field
 element

---
 compiler/circuit-std-rs/src/logup.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/compiler/circuit-std-rs/src/logup.rs b/compiler/circuit-std-rs/src/logup.rs
index 66524ef..452e3ae 100644
--- a/compiler/circuit-std-rs/src/logup.rs
+++ b/compiler/circuit-std-rs/src/logup.rs
@@ -494,9 +494,11 @@ pub fn query_count_by_key_hint<F: Field>(inputs: &[F], outputs: &mut [F]) -> Res
     let table = &inputs[1..=table_size];
     let query_keys = &inputs[(table_size + 1)..];
 
-    let mut table_map: HashMap<u32, usize> = HashMap::new();
+    // Keys may be negative, so compare whole field elements: in Goldilocks,
+    // -1 and 0 agree in their low 32 bits.
+    let mut table_map: HashMap<U256, usize> = HashMap::new();
     for key in query_keys {
-        let key_value = key.to_u256().as_u32();
+        let key_value = key.to_u256();
         *table_map.entry(key_value).or_insert(0) += 1;
     }
 
@@ -506,7 +508,7 @@ pub fn query_count_by_key_hint<F: Field>(inputs: &[F], outputs: &mut [F]) -> Res
                 "table entry index exceeds output length".into(),
             ));
         }
-        let key_value = value.to_u256().as_u32();
+        let key_value = value.to_u256();
         let count = table_map.get(&key_value).copied().unwrap_or(0);
         outputs_u32[i] = count as u32;
     }
-- 
2.43.0


From ff5f731994c349b07f6a54f105d6e48169fcd85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:09 +0000
Subject: [PATCH 37/71] fix: ReduceMean of lanes with a negative sum

---
 .../circuit_functions/layers/reduce_mean.rs   | 22 ++++++++++++++-----
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/rust/jstprove_circuits/src/circuit_functions/layers/reduce_mean.rs b/rust/jstprove_circuits/src/circuit_functions/layers/reduce_mean.rs
index 985b83c..4cb4f49 100644
--- a/rust/jstprove_circuits/src/circuit_functions/layers/reduce_mean.rs
+++ b/rust/jstprove_circuits/src/circuit_functions/layers/reduce_mean.rs
@@ -80,6 +80,16 @@ impl<C: Config, Builder: RootAPI<C>> LayerOp<C, Builder> for ReduceMeanLayer {
         let n_bits_u32 = u32::try_from(self.n_bits).unwrap_or(u32::MAX);
         let offset = U256::from(1u64) << (n_bits_u32 - 1);
         let offset_var = api.constant(CircuitField::<C>::from_u256(offset));
+        // Shifting the dividend by n·2^(n_bits-1) keeps it non-negative, so that the
+        // integer division below also holds for lanes with a negative sum.
+        let dividend_shift = offset
+            .checked_mul(U256::from(n as u64))
+            .filter(|s| *s < CircuitField::<C>::MODULUS / 2)
+            .ok_or_else(|| LayerError::Other {
+                layer: LayerKind::ReduceMean,
+                msg: format!("n_bits {} is too large for {n} elements", self.n_bits),
+            })?;
+        let dividend_shift_var = api.constant(CircuitField::<C>::from_u256(dividend_shift));
 
         let mut out_storage: Vec<Variable> = Vec::with_capacity(total_out);
 
@@ -104,12 +114,13 @@ impl<C: Config, Builder: RootAPI<C>> LayerOp<C, Builder> for ReduceMeanLayer {
             };
 
             let biased_sum = api.add(sum, half_n_const);
-            let mean_q = api.unconstrained_int_div(biased_sum, n_const);
-            let remainder = api.unconstrained_mod(biased_sum, n_const);
+            let dividend = api.add(biased_sum, dividend_shift_var);
+            let mean_shifted = api.unconstrained_int_div(dividend, n_const);
+            let remainder = api.unconstrained_mod(dividend, n_const);
 
-            let rhs = api.mul(n_const, mean_q);
+            let rhs = api.mul(n_const, mean_shifted);
             let rhs = api.add(rhs, remainder);
-            api.assert_is_equal(biased_sum, rhs);
+            api.assert_is_equal(dividend, rhs);
 
             logup_ctx
                 .range_check::<C, Builder>(api, remainder, remainder_bits)
@@ -130,7 +141,6 @@ impl<C: Config, Builder: RootAPI<C>> LayerOp<C, Builder> for ReduceMeanLayer {
                     })?;
             }
 
-            let mean_shifted = api.add(mean_q, offset_var);
             logup_ctx
                 .range_check::<C, Builder>(api, mean_shifted, self.n_bits)
                 .map_err(|e| LayerError::Other {
@@ -138,7 +148,7 @@ impl<C: Config, Builder: RootAPI<C>> LayerOp<C, Builder> for ReduceMeanLayer {
                     msg: format!("mean output range check: {e}"),
                 })?;
 
-            out_storage.push(mean_q);
+            out_storage.push(api.sub(mean_shifted, offset_var));
         }
 
         let result =
-- 
2.43.0


From 311f3cdbe40c0ecb6f0f8cb4e73e3e8b08355176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:09 +0000
Subject: [PATCH 38/71] fix: refuse fractional Pow exponents instead of
 truncating them

---
 rust/jstprove_circuits/src/expander_metadata.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rust/jstprove_circuits/src/expander_metadata.rs b/rust/jstprove_circuits/src/expander_metadata.rs
index 66657ca..81108f3 100644
--- a/rust/jstprove_circuits/src/expander_metadata.rs
+++ b/rust/jstprove_circuits/src/expander_metadata.rs
@@ -361,6 +361,12 @@ fn build_wandb(
             }
             seen.insert(name.clone());
 
+            anyhow::ensure!(
+                layer.op_type != OpType::Pow || td.float_data.iter().all(|v| v.fract() == 0.0),
+                "layer '{}': fractional exponents are not supported",
+                layer.name
+            );
+
             let shape = td.shape();
             let tensor_data = td.as_i64_vec();
             let tensor_value = nest_flat_data(&tensor_data, &shape)
-- 
2.43.0


From 0bf0baa4c9af299f40072a77b73b73f72cfdd649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:30 +0000
Subject: [PATCH 39/71] fix: widths admit a value that reaches a power of two

---
 rust/jstprove_onnx/src/quantizer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rust/jstprove_onnx/src/quantizer.rs b/rust/jstprove_onnx/src/quantizer.rs
index d7cd3d7..a4c1396 100644
--- a/rust/jstprove_onnx/src/quantizer.rs
+++ b/rust/jstprove_onnx/src/quantizer.rs
@@ -2006,5 +2006,7 @@ fn compute_n_bits(alpha: i64, bound: f64) -> usize {
     if val <= 1.0 {
         return 2;
     }
-    (val.log2().ceil() as usize) + 1
+    // The range check admits [-2^(n_bits-1), 2^(n_bits-1)): a value that reaches
+    // a power of two needs the next width.
+    (val.log2().floor() as usize) + 2
 }
-- 
2.43.0


From 306e0d72bc4dc698cb89b5e49391657817fe6d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:30 +0000
Subject: [PATCH 40/71] fix: membership proofs in single-leaf trees

---
 prover/tree/src/tree.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/prover/tree/src/tree.rs b/prover/tree/src/tree.rs
index d74e07d..530fbcf 100644
--- a/prover/tree/src/tree.rs
+++ b/prover/tree/src/tree.rs
@@ -192,13 +192,9 @@ impl Tree {
         let leaf_index_in_tree = convert_index_to_last_level(index, tree_height);
         let leaf = self.leaves[index];
 
-        // Path nodes
-        let sibling_index_in_tree = sibling_index(leaf_index_in_tree).unwrap();
+        // Path nodes, from the leaf's layer to the top (none in a single-leaf tree)
         let mut path_nodes = Vec::with_capacity(tree_height - 1);
-        path_nodes.push(self.nodes[sibling_index_in_tree]);
-
-        // Iterate from the bottom layer after the leaves to the top
-        let mut current_node = parent_index(leaf_index_in_tree).unwrap();
+        let mut current_node = leaf_index_in_tree;
         while current_node != 0 {
             let sibling_node = sibling_index(current_node).unwrap();
             path_nodes.push(self.nodes[sibling_node]);
-- 
2.43.0


From 47e3b3119986d30f92ee42078db52dabe1caa279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:30 +0000
Subject: [PATCH 41/71] fix: extract public values of extension-field witnesses

---
 .../src/runner/verify_extract.rs              | 42 ++++++++++++++-----
 1 file changed, 32 insertions(+), 10 deletions(-)

diff --git a/rust/jstprove_circuits/src/runner/verify_extract.rs b/rust/jstprove_circuits/src/runner/verify_extract.rs
index e824b68..4f1e272 100644
--- a/rust/jstprove_circuits/src/runner/verify_extract.rs
+++ b/rust/jstprove_circuits/src/runner/verify_extract.rs
@@ -58,10 +58,21 @@ fn read_32_bytes(cursor: &mut Cursor<&[u8]>) -> Result<[u8; 32], RunError> {
     Ok(buf)
 }
 
-fn element_size_from_modulus(modulus: &BigUint) -> usize {
+fn base_element_size(modulus: &BigUint) -> usize {
     if modulus.bits() <= 64 { 8 } else { 32 }
 }
 
+/// Bytes per stored value. The modulus is the base field's, so circuits over
+/// the degree-2 extension are told apart by the length of the payload.
+fn element_size(modulus: &BigUint, payload_len: usize, num_values: usize) -> usize {
+    let base = base_element_size(modulus);
+    if num_values > 0 && base == 8 && num_values.checked_mul(2 * base) == Some(payload_len) {
+        2 * base
+    } else {
+        base
+    }
+}
+
 fn biguint_from_le_bytes(bytes: &[u8]) -> BigUint {
     BigUint::from_bytes_le(bytes)
 }
@@ -191,7 +202,8 @@ fn parse_public_inputs_from_witness_bytes(
 ) -> Result<(BigUint, Vec<BigUint>), RunError> {
     let mut cursor = Cursor::new(data);
 
-    let _num_witnesses = read_u64_le(&mut cursor)?;
+    let num_witnesses = usize::try_from(read_u64_le(&mut cursor)?)
+        .map_err(|_| RunError::Deserialize("num_witnesses overflows usize".into()))?;
     let num_inputs = usize::try_from(read_u64_le(&mut cursor)?)
         .map_err(|_| RunError::Deserialize("num_inputs overflows usize".into()))?;
     let num_public_inputs = usize::try_from(read_u64_le(&mut cursor)?)
@@ -202,27 +214,37 @@ fn parse_public_inputs_from_witness_bytes(
         return Err(RunError::Deserialize("modulus is zero".into()));
     }
 
-    let elem_size = element_size_from_modulus(&modulus);
-
     let total_values = num_inputs.checked_add(num_public_inputs).ok_or_else(|| {
         RunError::Deserialize("num_inputs + num_public_inputs overflows usize".into())
     })?;
+    #[allow(clippy::cast_possible_truncation)]
+    let payload_len = data.len().saturating_sub(cursor.position() as usize);
+    let base_size = base_element_size(&modulus);
+    let elem_size = element_size(
+        &modulus,
+        payload_len,
+        total_values.saturating_mul(num_witnesses),
+    );
     let required_bytes = total_values
         .checked_mul(elem_size)
         .ok_or_else(|| RunError::Deserialize("public input byte size overflows usize".into()))?;
-    #[allow(clippy::cast_possible_truncation)]
-    let remaining = data.len().saturating_sub(cursor.position() as usize);
-    if remaining < required_bytes {
+    if payload_len < required_bytes {
         return Err(RunError::Deserialize(format!(
             "witness too short: need {required_bytes} bytes for {total_values} \
-             field elements ({elem_size} bytes each), have {remaining}"
+             field elements ({elem_size} bytes each), have {payload_len}"
         )));
     }
     let mut values = Vec::with_capacity(total_values);
     let mut elem_buf = [0u8; 32];
-    for _ in 0..total_values {
+    for i in 0..total_values {
         let bytes = read_field_element(&mut cursor, &mut elem_buf, elem_size)?;
-        values.push(biguint_from_le_bytes(bytes));
+        let (base, extension) = bytes.split_at(base_size);
+        if i >= num_inputs && extension.iter().any(|&b| b != 0) {
+            return Err(RunError::Deserialize(
+                "public value is not in the base field".into(),
+            ));
+        }
+        values.push(biguint_from_le_bytes(base));
     }
 
     let public_inputs = values[num_inputs..].to_vec();
-- 
2.43.0


From ba355b435ffc052fa24ec78598ee87809943c637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:50 +0000
Subject: [PATCH 42/71] fix: divide the signed cubic term and exponent of Gelu
 after shifting

---
 .../src/circuit_functions/layers/gelu.rs      | 55 ++++++++++++++-----
 1 file changed, 40 insertions(+), 15 deletions(-)

diff --git a/rust/jstprove_circuits/src/circuit_functions/layers/gelu.rs b/rust/jstprove_circuits/src/circuit_functions/layers/gelu.rs
index 7dfbd58..9ef3a7f 100644
--- a/rust/jstprove_circuits/src/circuit_functions/layers/gelu.rs
+++ b/rust/jstprove_circuits/src/circuit_functions/layers/gelu.rs
@@ -7,7 +7,10 @@ use expander_compiler::frontend::{CircuitField, Config, FieldArith, RootAPI, Var
 
 use crate::circuit_functions::{
     CircuitError,
-    gadgets::{DecomposedExpLookup, function_lookup_bits, range_check::LogupRangeCheckContext},
+    gadgets::{
+        DecomposedExpLookup, euclidean_division::div_pos_integer_pow2_constant_inner,
+        function_lookup_bits, range_check::LogupRangeCheckContext,
+    },
     hints::{exp::compute_exp_quantized, gelu::GELU_HINT_KEY},
     layers::{LayerError, LayerKind, layer_ops::LayerOp},
     utils::{
@@ -63,6 +66,22 @@ impl<C: Config, Builder: RootAPI<C>> LayerOp<C, Builder> for GeluLayer {
         let cross_tol_bits = (2 * cross_tolerance).next_power_of_two().trailing_zeros() as usize;
 
         let lookup_bits = function_lookup_bits(self.scale_exponent);
+
+        // The cubic term and z take the sign of x, while the unconstrained
+        // division truncates the field representative. Both are shifted to be
+        // non-negative before dividing; |z| (and so the cubic term) lies inside
+        // the exp lookup domain, and the shift must not wrap in the field.
+        let scale_exponent = self.scale_exponent as usize;
+        let field_bits = (U256::BITS - CircuitField::<C>::MODULUS.leading_zeros()) as usize;
+        let cubic_shift_exponent =
+            lookup_bits.min(field_bits.saturating_sub(2 * scale_exponent + 2));
+        let pow2 = |e: usize| {
+            CircuitField::<C>::from_u256(U256::ONE << u32::try_from(e).unwrap_or(u32::MAX))
+        };
+        let cubic_shift_var = api.constant(pow2(cubic_shift_exponent));
+        let cubic_scaled_shift_var = api.constant(pow2(cubic_shift_exponent + 2 * scale_exponent));
+        let z_shift_var = api.constant(pow2(lookup_bits));
+        let z_scaled_shift_var = api.constant(pow2(lookup_bits + scale_exponent));
         let mut decomposed = DecomposedExpLookup::build::<C, Builder>(
             api,
             lookup_bits,
@@ -87,26 +106,32 @@ impl<C: Config, Builder: RootAPI<C>> LayerOp<C, Builder> for GeluLayer {
             let x_cubed_a2 = api.mul(x_sq_div_alpha, x);
 
             let coef_x3 = api.mul(coef_var, x_cubed_a2);
-            let coef_x3_div = api.unconstrained_int_div(coef_x3, scale_sq_var);
-            let coef_x3_rem = api.unconstrained_mod(coef_x3, scale_sq_var);
-            let coef_x3_recon = api.mul(coef_x3_div, scale_sq_var);
-            let coef_x3_recon = api.add(coef_x3_recon, coef_x3_rem);
-            api.assert_is_equal(coef_x3_recon, coef_x3);
-            logup_ctx.range_check::<C, Builder>(
+            let coef_x3_div = div_pos_integer_pow2_constant_inner::<C, Builder>(
                 api,
-                coef_x3_rem,
-                2 * self.scale_exponent as usize,
+                logup_ctx,
+                coef_x3,
+                scale_sq_var,
+                cubic_scaled_shift_var,
+                2 * scale_exponent,
+                cubic_shift_exponent,
+                cubic_shift_var,
+                true,
             )?;
 
             let inner = api.add(x, coef_x3_div);
 
             let z_a2 = api.mul(outer_coef_var, inner);
-            let z = api.unconstrained_int_div(z_a2, scale_var);
-            let z_rem = api.unconstrained_mod(z_a2, scale_var);
-            let z_recon = api.mul(z, scale_var);
-            let z_recon = api.add(z_recon, z_rem);
-            api.assert_is_equal(z_recon, z_a2);
-            logup_ctx.range_check::<C, Builder>(api, z_rem, self.scale_exponent as usize)?;
+            let z = div_pos_integer_pow2_constant_inner::<C, Builder>(
+                api,
+                logup_ctx,
+                z_a2,
+                scale_var,
+                z_scaled_shift_var,
+                scale_exponent,
+                lookup_bits,
+                z_shift_var,
+                true,
+            )?;
 
             let neg_z = api.sub(zero_var, z);
             let exp_neg_z = decomposed.verify_exp::<C, Builder>(api, logup_ctx, neg_z)?;
-- 
2.43.0


From e312fb26a877491f3221b736859ad334e15c51ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:48 +0000
Subject: [PATCH 43/71] fix: GridSample pixels outside the image and reflected
 coordinates in bilinear mode

---
 .../hints/gridsample_dynamic.rs               | 124 +++++++-----------
 .../circuit_functions/layers/gridsample.rs    |  80 ++++++-----
 2 files changed, 90 insertions(+), 114 deletions(-)

diff --git a/rust/jstprove_circuits/src/circuit_functions/hints/gridsample_dynamic.rs b/rust/jstprove_circuits/src/circuit_functions/hints/gridsample_dynamic.rs
index 80fbeaa..c35ca58 100644
--- a/rust/jstprove_circuits/src/circuit_functions/hints/gridsample_dynamic.rs
+++ b/rust/jstprove_circuits/src/circuit_functions/hints/gridsample_dynamic.rs
@@ -129,93 +129,61 @@ pub fn gridsample_dynamic_hint<F: FieldArith>(
     let x_in = unnorm(x_norm, w_in, align_corners);
     let y_in = unnorm(y_norm, h_in, align_corners);
 
-    let apply_pad = |coord: f64, size: usize| -> Option<f64> {
+    // `border` and `reflection` bring the coordinate inside the image; under
+    // `zeros` every pixel outside it contributes 0.
+    let apply_pad = |coord: f64, size: usize| -> f64 {
         match padding_mode_code {
-            0 => {
-                if coord < -0.5 || coord > (size as f64) - 0.5 {
-                    None
-                } else {
-                    Some(coord.clamp(0.0, (size.saturating_sub(1)) as f64))
-                }
-            }
-            1 => Some(coord.clamp(0.0, (size.saturating_sub(1)) as f64)),
-            _ => Some(reflect_coord(coord, size, align_corners)),
+            0 => coord,
+            1 => coord.clamp(0.0, (size.saturating_sub(1)) as f64),
+            _ => reflect_coord(coord, size, align_corners),
         }
     };
 
     let x_padded = apply_pad(x_in, w_in);
     let y_padded = apply_pad(y_in, h_in);
 
-    let zero_field = F::from_u256(U256::ZERO);
-
-    match (y_padded, x_padded) {
-        (Some(y_p), Some(x_p)) => {
-            let y_clamped = y_p.clamp(0.0, (h_in.saturating_sub(1)) as f64);
-            let x_clamped = x_p.clamp(0.0, (w_in.saturating_sub(1)) as f64);
-
-            let y_floor = y_clamped.floor();
-            let x_floor = x_clamped.floor();
-            let y_f = y_floor as usize;
-            let x_f = x_floor as usize;
-            let y_c = (y_clamped.ceil() as usize).min(h_in.saturating_sub(1));
-            let x_c = (x_clamped.ceil() as usize).min(w_in.saturating_sub(1));
-
-            let fy = y_clamped - y_floor;
-            let fx = x_clamped - x_floor;
-
-            let w_f = [
-                (1.0 - fy) * (1.0 - fx),
-                (1.0 - fy) * fx,
-                fy * (1.0 - fx),
-                fy * fx,
-            ];
-
-            let get_pixel =
-                |h: usize, w: usize| -> i64 { field_to_i64(inputs[data_offset + h * w_in + w]) };
-
-            let corners_i64 = [
-                get_pixel(y_f, x_f),
-                get_pixel(y_f, x_c),
-                get_pixel(y_c, x_f),
-                get_pixel(y_c, x_c),
-            ];
-
-            let weights_q: [i64; NUM_CORNERS] = [
-                (w_f[0] * scale_u64 as f64).round() as i64,
-                (w_f[1] * scale_u64 as f64).round() as i64,
-                (w_f[2] * scale_u64 as f64).round() as i64,
-                (w_f[3] * scale_u64 as f64).round() as i64,
-            ];
-
-            let mut sum_i128: i128 = 0;
-            for i in 0..NUM_CORNERS {
-                sum_i128 += i128::from(corners_i64[i]) * i128::from(weights_q[i]);
-            }
-
-            let scale_i128 = i128::from(scale_u64);
-            let half = scale_i128 / 2;
-            let result: i64 = if sum_i128 >= 0 {
-                let rounded = (sum_i128 + half) / scale_i128;
-                rounded.clamp(i128::from(i64::MIN), i128::from(i64::MAX)) as i64
-            } else {
-                let rounded = (sum_i128 - half) / scale_i128;
-                rounded.clamp(i128::from(i64::MIN), i128::from(i64::MAX)) as i64
-            };
-
-            outputs[0] = i64_to_field(result);
-            for i in 0..NUM_CORNERS {
-                outputs[1 + i] = i64_to_field(corners_i64[i]);
-            }
-            for i in 0..NUM_CORNERS {
-                outputs[1 + NUM_CORNERS + i] = i64_to_field(weights_q[i]);
-            }
-        }
-        _ => {
-            for out in outputs.iter_mut() {
-                *out = zero_field;
-            }
+    let y_floor = y_padded.floor();
+    let x_floor = x_padded.floor();
+    let fy = y_padded - y_floor;
+    let fx = x_padded - x_floor;
+
+    let corners = [
+        (y_floor, x_floor, (1.0 - fy) * (1.0 - fx)),
+        (y_floor, x_floor + 1.0, (1.0 - fy) * fx),
+        (y_floor + 1.0, x_floor, fy * (1.0 - fx)),
+        (y_floor + 1.0, x_floor + 1.0, fy * fx),
+    ];
+    let mut corners_i64 = [0i64; NUM_CORNERS];
+    let mut weights_q = [0i64; NUM_CORNERS];
+    for (i, (h, w, weight)) in corners.into_iter().enumerate() {
+        if h >= 0.0 && w >= 0.0 && h < h_in as f64 && w < w_in as f64 {
+            corners_i64[i] = field_to_i64(inputs[data_offset + h as usize * w_in + w as usize]);
+            weights_q[i] = (weight * alpha_f).round() as i64;
         }
     }
 
+    let mut sum_i128: i128 = 0;
+    for i in 0..NUM_CORNERS {
+        sum_i128 += i128::from(corners_i64[i]) * i128::from(weights_q[i]);
+    }
+
+    let scale_i128 = i128::from(scale_u64);
+    let half = scale_i128 / 2;
+    let result: i64 = if sum_i128 >= 0 {
+        let rounded = (sum_i128 + half) / scale_i128;
+        rounded.clamp(i128::from(i64::MIN), i128::from(i64::MAX)) as i64
+    } else {
+        let rounded = (sum_i128 - half) / scale_i128;
+        rounded.clamp(i128::from(i64::MIN), i128::from(i64::MAX)) as i64
+    };
+
+    outputs[0] = i64_to_field(result);
+    for i in 0..NUM_CORNERS {
+        outputs[1 + i] = i64_to_field(corners_i64[i]);
+    }
+    for i in 0..NUM_CORNERS {
+        outputs[1 + NUM_CORNERS + i] = i64_to_field(weights_q[i]);
+    }
+
     Ok(())
 }
diff --git a/rust/jstprove_circuits/src/circuit_functions/layers/gridsample.rs b/rust/jstprove_circuits/src/circuit_functions/layers/gridsample.rs
index bbd4455..708a7ff 100644
--- a/rust/jstprove_circuits/src/circuit_functions/layers/gridsample.rs
+++ b/rust/jstprove_circuits/src/circuit_functions/layers/gridsample.rs
@@ -156,20 +156,36 @@ fn nearest_px(x: f64, size: usize) -> usize {
         .clamp(0.0, (size.saturating_sub(1)) as f64) as usize
 }
 
-/// Returns `(floor_idx, ceil_idx, weight_floor, weight_ceil)` for a continuous
-/// pixel coordinate `x` in a dimension of size `size`.
+/// Returns the two pixels around a continuous pixel coordinate `x` in a
+/// dimension of size `size`, each with its weight. `border` and `reflection`
+/// bring the coordinate inside first; under `zeros` a pixel outside the image
+/// keeps its place but has weight 0.
 #[allow(
     clippy::cast_precision_loss,
     clippy::cast_possible_truncation,
     clippy::cast_sign_loss
 )]
-fn bilinear_corners_1d(x: f64, size: usize) -> (usize, usize, f64, f64) {
-    let x_clamped = x.clamp(0.0, (size.saturating_sub(1)) as f64);
-    let floor_f = x_clamped.floor();
-    let floor_idx = floor_f as usize;
-    let ceil_idx = (x_clamped.ceil() as usize).min(size.saturating_sub(1));
-    let frac = x_clamped - floor_f;
-    (floor_idx, ceil_idx, 1.0 - frac, frac)
+fn bilinear_corners_1d(
+    x: f64,
+    size: usize,
+    padding_mode: &str,
+    align_corners: bool,
+) -> [(usize, f64); 2] {
+    let last = (size.saturating_sub(1)) as f64;
+    let x = match padding_mode {
+        "zeros" => x,
+        "reflection" => reflect_coord(x, size, align_corners),
+        _ => x.clamp(0.0, last),
+    };
+    let floor_f = x.floor();
+    let frac = x - floor_f;
+    [(floor_f, 1.0 - frac), (floor_f + 1.0, frac)].map(|(p, weight)| {
+        let inside = (0.0..=last).contains(&p);
+        (
+            p.clamp(0.0, last) as usize,
+            if inside { weight } else { 0.0 },
+        )
+    })
 }
 
 // -------- Build helpers --------
@@ -259,37 +275,20 @@ fn build_bilinear_per_output(
                     let x_in = unnormalize(x_norm, w_in, align_corners);
                     let y_in = unnormalize(y_norm, h_in, align_corners);
 
-                    // 2-D bilinear: 4 corners in (H, W).
-                    let (h_f, h_c, wh_f, wh_c) = bilinear_corners_1d(y_in, h_in);
-                    let (w_f, w_c, ww_f, ww_c) = bilinear_corners_1d(x_in, w_in);
-
-                    // Corner ordering: (h_f,w_f), (h_f,w_c), (h_c,w_f), (h_c,w_c).
-                    let corners_hw = [(h_f, w_f), (h_f, w_c), (h_c, w_f), (h_c, w_c)];
-                    let weights_f = [wh_f * ww_f, wh_f * ww_c, wh_c * ww_f, wh_c * ww_c];
+                    // 2-D bilinear: 4 corners in (H, W), ordered
+                    // (h_f,w_f), (h_f,w_c), (h_c,w_f), (h_c,w_c).
+                    let h_corners = bilinear_corners_1d(y_in, h_in, padding_mode, align_corners);
+                    let w_corners = bilinear_corners_1d(x_in, w_in, padding_mode, align_corners);
 
                     let mut corner_flat_indices = Vec::with_capacity(4);
                     let mut weights_q = Vec::with_capacity(4);
 
-                    for (i, &(ch, cw)) in corners_hw.iter().enumerate() {
-                        // For "zeros" padding, check if the unnormalized grid coordinate
-                        // is OOB. bilinear_corners_1d already clamps h_f/h_c/w_f/w_c to
-                        // valid ranges, so the per-corner bounds checks are redundant.
-                        let in_bounds = if padding_mode == "zeros" {
-                            apply_padding_f(y_in, h_in, "zeros", align_corners).is_some()
-                                && apply_padding_f(x_in, w_in, "zeros", align_corners).is_some()
-                        } else {
-                            true
-                        };
-
-                        let flat = bn * c * h_in * w_in + bc * h_in * w_in + ch * w_in + cw;
-                        corner_flat_indices.push(flat);
-
-                        let wq = if in_bounds {
-                            (weights_f[i] * scaling as f64).round() as i64
-                        } else {
-                            0
-                        };
-                        weights_q.push(wq);
+                    for (ch, h_weight) in h_corners {
+                        for (cw, w_weight) in w_corners {
+                            let flat = bn * c * h_in * w_in + bc * h_in * w_in + ch * w_in + cw;
+                            corner_flat_indices.push(flat);
+                            weights_q.push((h_weight * w_weight * scaling as f64).round() as i64);
+                        }
                     }
 
                     per_output.push(BilinearOutputSpec {
@@ -691,6 +690,15 @@ impl<C: Config, Builder: RootAPI<C>> LayerOp<C, Builder> for GridSampleLayer {
                 "border" => 1,
                 _ => 2,
             };
+            if mode == "nearest" {
+                return Err(LayerError::Other {
+                    layer: LayerKind::GridSample,
+                    msg: "nearest mode needs a constant grid: a computed grid is only \
+                          sampled bilinearly"
+                        .to_string(),
+                }
+                .into());
+            }
             let n_bits = layer_context.n_bits_for(&layer.name);
             GridSampleInterp::Dynamic {
                 grid_name: grid_name.clone(),
-- 
2.43.0


From fd56f3312d0ced3c1ae369167eb262e88e2f6c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:14 +0000
Subject: [PATCH 44/71] fix: Max and Min compare all of their operands

---
 .../layers/binary_compare.rs                  | 93 +++++++++++--------
 rust/jstprove_onnx/src/quantizer.rs           |  6 +-
 2 files changed, 61 insertions(+), 38 deletions(-)

diff --git a/rust/jstprove_circuits/src/circuit_functions/layers/binary_compare.rs b/rust/jstprove_circuits/src/circuit_functions/layers/binary_compare.rs
index a8ae7cf..5a2f928 100644
--- a/rust/jstprove_circuits/src/circuit_functions/layers/binary_compare.rs
+++ b/rust/jstprove_circuits/src/circuit_functions/layers/binary_compare.rs
@@ -20,40 +20,22 @@ pub struct BinaryCompareLayer {
     kind: LayerKind,
     inputs: Vec<String>,
     outputs: Vec<String>,
-    initializer_a: Option<ArrayD<i64>>,
-    initializer_b: Option<ArrayD<i64>>,
+    /// The constant value of each operand, where it has one.
+    initializers: Vec<Option<ArrayD<i64>>>,
     shift_exponent: usize,
 }
 
-impl<C: Config, Builder: RootAPI<C>> LayerOp<C, Builder> for BinaryCompareLayer {
-    fn apply(
+impl BinaryCompareLayer {
+    /// The elementwise maximum or minimum of two tensors, broadcast together.
+    fn compare<C: Config, Builder: RootAPI<C>>(
         &self,
         api: &mut Builder,
         logup_ctx: &mut LogupRangeCheckContext,
-        input: &HashMap<String, ArrayD<Variable>>,
-    ) -> Result<(Vec<String>, ArrayD<Variable>), CircuitError> {
-        let a_name = get_input_name(&self.inputs, 0, self.kind.clone(), INPUT)?;
-        let b_name = get_input_name(&self.inputs, 1, self.kind.clone(), INPUT)?;
-
-        let a_input = load_array_constants_or_get_inputs(
-            api,
-            input,
-            a_name,
-            &self.initializer_a,
-            self.kind.clone(),
-        )?;
-
-        let b_input = load_array_constants_or_get_inputs(
-            api,
-            input,
-            b_name,
-            &self.initializer_b,
-            self.kind.clone(),
-        )?;
-
-        let (a_bc, b_bc) = broadcast_two_arrays(&a_input, &b_input)?;
-
-        let shift_ctx = ShiftRangeContext::new(api, self.kind.clone(), self.shift_exponent)?;
+        shift_ctx: &ShiftRangeContext,
+        a: &ArrayD<Variable>,
+        b: &ArrayD<Variable>,
+    ) -> Result<ArrayD<Variable>, CircuitError> {
+        let (a_bc, b_bc) = broadcast_two_arrays(a, b)?;
 
         let shape = a_bc.shape().to_vec();
         if a_bc.len() != b_bc.len() {
@@ -72,8 +54,8 @@ impl<C: Config, Builder: RootAPI<C>> LayerOp<C, Builder> for BinaryCompareLayer
 
         for (a_val, b_val) in a_bc.iter().zip(b_bc.iter()) {
             let result_var = match self.kind {
-                LayerKind::Max => constrained_max_2(api, &shift_ctx, logup_ctx, *a_val, *b_val)?,
-                LayerKind::Min => constrained_min_2(api, &shift_ctx, logup_ctx, *a_val, *b_val)?,
+                LayerKind::Max => constrained_max_2(api, shift_ctx, logup_ctx, *a_val, *b_val)?,
+                LayerKind::Min => constrained_min_2(api, shift_ctx, logup_ctx, *a_val, *b_val)?,
                 ref kind => {
                     return Err(LayerError::UnsupportedConfig {
                         layer: kind.clone(),
@@ -85,11 +67,45 @@ impl<C: Config, Builder: RootAPI<C>> LayerOp<C, Builder> for BinaryCompareLayer
             out_storage.push(result_var);
         }
 
-        let result = ArrayD::from_shape_vec(shape.clone(), out_storage).map_err(|_| {
+        ArrayD::from_shape_vec(shape.clone(), out_storage).map_err(|_| {
             LayerError::InvalidShape {
                 layer: self.kind.clone(),
                 msg: format!("cannot reshape result into shape {shape:?}"),
             }
+            .into()
+        })
+    }
+}
+
+impl<C: Config, Builder: RootAPI<C>> LayerOp<C, Builder> for BinaryCompareLayer {
+    fn apply(
+        &self,
+        api: &mut Builder,
+        logup_ctx: &mut LogupRangeCheckContext,
+        input: &HashMap<String, ArrayD<Variable>>,
+    ) -> Result<(Vec<String>, ArrayD<Variable>), CircuitError> {
+        let shift_ctx = ShiftRangeContext::new(api, self.kind.clone(), self.shift_exponent)?;
+
+        let mut result: Option<ArrayD<Variable>> = None;
+        for (i, initializer) in self.initializers.iter().enumerate() {
+            let name = get_input_name(&self.inputs, i, self.kind.clone(), INPUT)?;
+            let operand = load_array_constants_or_get_inputs(
+                api,
+                input,
+                name,
+                initializer,
+                self.kind.clone(),
+            )?;
+            result = Some(match result {
+                None => operand,
+                Some(acc) => {
+                    self.compare::<C, Builder>(api, logup_ctx, &shift_ctx, &acc, &operand)?
+                }
+            });
+        }
+        let result = result.ok_or_else(|| LayerError::MissingInput {
+            layer: self.kind.clone(),
+            name: INPUT.to_string(),
         })?;
 
         Ok((self.outputs.clone(), result))
@@ -105,10 +121,14 @@ impl<C: Config, Builder: RootAPI<C>> LayerOp<C, Builder> for BinaryCompareLayer
     ) -> Result<Box<dyn LayerOp<C, Builder>>, CircuitError> {
         let kind = LayerKind::try_from(layer.op_type.as_str())?;
 
-        let a_name = get_input_name(&layer.inputs, 0, kind.clone(), INPUT)?;
-        let b_name = get_input_name(&layer.inputs, 1, kind.clone(), INPUT)?;
-        let initializer_a = get_optional_w_or_b(layer_context, a_name)?;
-        let initializer_b = get_optional_w_or_b(layer_context, b_name)?;
+        if layer.inputs.len() < 2 {
+            get_input_name(&layer.inputs, 1, kind.clone(), INPUT)?;
+        }
+        let initializers = layer
+            .inputs
+            .iter()
+            .map(|name| get_optional_w_or_b(layer_context, name))
+            .collect::<Result<Vec<_>, _>>()?;
 
         let shift_exponent = layer_context
             .n_bits_for(&layer.name)
@@ -122,8 +142,7 @@ impl<C: Config, Builder: RootAPI<C>> LayerOp<C, Builder> for BinaryCompareLayer
             kind,
             inputs: layer.inputs.clone(),
             outputs: layer.outputs.clone(),
-            initializer_a,
-            initializer_b,
+            initializers,
             shift_exponent,
         }))
     }
diff --git a/rust/jstprove_onnx/src/quantizer.rs b/rust/jstprove_onnx/src/quantizer.rs
index a4c1396..df4c76c 100644
--- a/rust/jstprove_onnx/src/quantizer.rs
+++ b/rust/jstprove_onnx/src/quantizer.rs
@@ -152,7 +152,11 @@ pub fn quantize_model(mut graph: LayerGraph, config: &ScaleConfig) -> Result<Qua
 }
 
 fn quantize_layer_weights(layer: &mut LayerNode, alpha: i64) -> Result<()> {
-    let scale_plan = ops::get_scale_plan(layer.op_type);
+    let mut scale_plan = ops::get_scale_plan(layer.op_type);
+    if matches!(layer.op_type, OpType::Max | OpType::Min) {
+        // Variadic: every operand is compared at α¹.
+        scale_plan.extend((0..layer.inputs.len()).map(|input_pos| (input_pos, 1)));
+    }
 
     for (&input_pos, &scale_factor) in &scale_plan {
         if let Some(input_name) = layer.inputs.get(input_pos) {
-- 
2.43.0


From 429e81d6263eb367b11f294ed1f65136f8af508b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:14 +0000
Subject: [PATCH 45/71] fix: Greater and Less compare signed values

---
 .../circuit_functions/gadgets/max_min_clip.rs | 44 +++++++++++++++++++
 .../src/circuit_functions/gadgets/mod.rs      |  2 +-
 .../src/circuit_functions/layers/greater.rs   | 10 +++--
 .../src/circuit_functions/layers/less.rs      | 10 +++--
 4 files changed, 57 insertions(+), 9 deletions(-)

diff --git a/rust/jstprove_circuits/src/circuit_functions/gadgets/max_min_clip.rs b/rust/jstprove_circuits/src/circuit_functions/gadgets/max_min_clip.rs
index c5e847d..6d07364 100644
--- a/rust/jstprove_circuits/src/circuit_functions/gadgets/max_min_clip.rs
+++ b/rust/jstprove_circuits/src/circuit_functions/gadgets/max_min_clip.rs
@@ -103,6 +103,50 @@ pub fn constrained_max<C: Config, Builder: RootAPI<C>>(
     Ok(max_raw)
 }
 
+/// Width of the gap between two compared values: any two signed values below
+/// `2^(COMPARE_BITS - 1)` in magnitude are told apart.
+const COMPARE_BITS: u32 = 60;
+
+/// Constrained signed comparison: 1 when `x > y`, else 0.
+///
+/// The bit is a hint; the `LogUp` range check of `x - y - 1` (bit set) or
+/// `y - x` (bit clear) admits only the right one.
+///
+/// # Errors
+/// Returns `CircuitError` on `LogUp` failure.
+pub fn constrained_gt<C: Config, Builder: RootAPI<C>>(
+    api: &mut Builder,
+    logup_ctx: &mut LogupRangeCheckContext,
+    x: Variable,
+    y: Variable,
+) -> Result<Variable, CircuitError> {
+    let field_bits = ethnum::U256::BITS - CircuitField::<C>::MODULUS.leading_zeros();
+    let n_bits = COMPARE_BITS.min(field_bits - 2);
+    let offset = api.constant(CircuitField::<C>::from_u256(
+        ethnum::U256::ONE << (n_bits - 1),
+    ));
+
+    let x_sh = api.add(x, offset);
+    let y_sh = api.add(y, offset);
+    let bit = api.unconstrained_greater(x_sh, y_sh);
+    api.assert_is_bool(bit);
+
+    let two_bit = api.add(bit, bit);
+    let selector = api.sub(two_bit, 1);
+    let diff = api.sub(x, y);
+    let gap = api.mul(selector, diff);
+    let gap = api.sub(gap, bit);
+
+    logup_ctx
+        .range_check::<C, Builder>(api, gap, n_bits as usize)
+        .map_err(|e| LayerError::Other {
+            layer: LayerKind::Greater,
+            msg: format!("constrained_gt (LogUp) failed: {e}"),
+        })?;
+
+    Ok(bit)
+}
+
 /// Boolean-selector specialization of `constrained_max` for exactly two inputs.
 /// Uses one LogUp range check on `|x - a|` instead of two on individual deltas.
 ///
diff --git a/rust/jstprove_circuits/src/circuit_functions/gadgets/mod.rs b/rust/jstprove_circuits/src/circuit_functions/gadgets/mod.rs
index 4a29635..5f34a97 100644
--- a/rust/jstprove_circuits/src/circuit_functions/gadgets/mod.rs
+++ b/rust/jstprove_circuits/src/circuit_functions/gadgets/mod.rs
@@ -14,7 +14,7 @@ pub use function_lookup::{
     DecomposedExpLookup, FunctionLookupTable, function_lookup_bits, i64_to_field,
 };
 pub use max_min_clip::{
-    ShiftRangeContext, constrained_clip, constrained_max, constrained_max_2, constrained_min,
+    ShiftRangeContext, constrained_clip, constrained_gt, constrained_max, constrained_max_2, constrained_min,
     constrained_min_2, constrained_relu,
 };
 pub use range_check::{
diff --git a/rust/jstprove_circuits/src/circuit_functions/layers/greater.rs b/rust/jstprove_circuits/src/circuit_functions/layers/greater.rs
index 8522788..618da65 100644
--- a/rust/jstprove_circuits/src/circuit_functions/layers/greater.rs
+++ b/rust/jstprove_circuits/src/circuit_functions/layers/greater.rs
@@ -7,7 +7,7 @@ use expander_compiler::frontend::{CircuitField, Config, FieldArith, RootAPI, Var
 
 use crate::circuit_functions::{
     CircuitError,
-    gadgets::LogupRangeCheckContext,
+    gadgets::{LogupRangeCheckContext, constrained_gt},
     layers::{LayerError, LayerKind, layer_ops::LayerOp},
     utils::{
         onnx_model::get_optional_w_or_b,
@@ -36,7 +36,7 @@ impl<C: Config, Builder: RootAPI<C>> LayerOp<C, Builder> for GreaterLayer {
     fn apply(
         &self,
         api: &mut Builder,
-        _logup_ctx: &mut LogupRangeCheckContext,
+        logup_ctx: &mut LogupRangeCheckContext,
         input: &HashMap<String, ArrayD<Variable>>,
     ) -> Result<(Vec<String>, ArrayD<Variable>), CircuitError> {
         match &self.mode {
@@ -96,8 +96,10 @@ impl<C: Config, Builder: RootAPI<C>> LayerOp<C, Builder> for GreaterLayer {
                 let out_flat: Vec<Variable> = a_flat
                     .iter()
                     .zip(b_flat.iter())
-                    .map(|(&a_val, &b_val)| api.gt(a_val, b_val))
-                    .collect();
+                    .map(|(&a_val, &b_val)| {
+                        constrained_gt::<C, Builder>(api, logup_ctx, a_val, b_val)
+                    })
+                    .collect::<Result<_, _>>()?;
 
                 let out_array =
                     ArrayD::from_shape_vec(IxDyn(a_bc.shape()), out_flat).map_err(|e| {
diff --git a/rust/jstprove_circuits/src/circuit_functions/layers/less.rs b/rust/jstprove_circuits/src/circuit_functions/layers/less.rs
index 756c13b..bfd98ed 100644
--- a/rust/jstprove_circuits/src/circuit_functions/layers/less.rs
+++ b/rust/jstprove_circuits/src/circuit_functions/layers/less.rs
@@ -7,7 +7,7 @@ use expander_compiler::frontend::{CircuitField, Config, FieldArith, RootAPI, Var
 
 use crate::circuit_functions::{
     CircuitError,
-    gadgets::LogupRangeCheckContext,
+    gadgets::{LogupRangeCheckContext, constrained_gt},
     layers::{LayerError, LayerKind, layer_ops::LayerOp},
     utils::{
         onnx_model::get_optional_w_or_b,
@@ -36,7 +36,7 @@ impl<C: Config, Builder: RootAPI<C>> LayerOp<C, Builder> for LessLayer {
     fn apply(
         &self,
         api: &mut Builder,
-        _logup_ctx: &mut LogupRangeCheckContext,
+        logup_ctx: &mut LogupRangeCheckContext,
         input: &HashMap<String, ArrayD<Variable>>,
     ) -> Result<(Vec<String>, ArrayD<Variable>), CircuitError> {
         match &self.mode {
@@ -96,8 +96,10 @@ impl<C: Config, Builder: RootAPI<C>> LayerOp<C, Builder> for LessLayer {
                 let out_flat: Vec<Variable> = a_flat
                     .iter()
                     .zip(b_flat.iter())
-                    .map(|(&a_val, &b_val)| api.gt(b_val, a_val))
-                    .collect();
+                    .map(|(&a_val, &b_val)| {
+                        constrained_gt::<C, Builder>(api, logup_ctx, b_val, a_val)
+                    })
+                    .collect::<Result<_, _>>()?;
 
                 let out_array =
                     ArrayD::from_shape_vec(IxDyn(a_bc.shape()), out_flat).map_err(|e| {
-- 
2.43.0


From 3ec2e6096e31975a26ce865725453dc183dbd49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:49 +0000
Subject: [PATCH 46/71] fix: Gather with a scalar index and a negative axis

---
 .../src/circuit_functions/layers/gather.rs    | 38 +++++++++++--------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/rust/jstprove_circuits/src/circuit_functions/layers/gather.rs b/rust/jstprove_circuits/src/circuit_functions/layers/gather.rs
index 28df60b..01cba1a 100644
--- a/rust/jstprove_circuits/src/circuit_functions/layers/gather.rs
+++ b/rust/jstprove_circuits/src/circuit_functions/layers/gather.rs
@@ -230,8 +230,8 @@ impl<C: Config, Builder: RootAPI<C>> LayerOp<C, Builder> for GatherLayer {
             None => 0,
         };
 
-        // Resolve axis relative to data rank.  We derive data rank from the
-        // output_shape and the indices tensor shape.
+        // Resolve axis relative to data rank: that of the data shape when it is
+        // known, otherwise derived from output_shape and the indices shape.
         let indices_name = &layer.inputs[1];
         let indices_array: ndarray::ArrayD<i64> =
             get_w_or_b(layer_context.w_and_b_map, indices_name).map_err(|e| LayerError::Other {
@@ -242,21 +242,27 @@ impl<C: Config, Builder: RootAPI<C>> LayerOp<C, Builder> for GatherLayer {
                 ),
             })?;
 
-        let indices_rank = indices_array.ndim();
-        // data_rank = output_rank - indices_rank + 1  (from ONNX spec:
-        // output_rank = data_rank + indices_rank - 1)
-        if indices_rank > output_shape.len() + 1 {
-            return Err(LayerError::InvalidShape {
-                layer: LayerKind::Gather,
-                msg: format!(
-                    "indices_rank ({indices_rank}) exceeds output_rank + 1 ({}); \
-                     cannot derive data_rank",
-                    output_shape.len() + 1
-                ),
+        // A scalar index arrives as a one-element vector, so the indices rank
+        // cannot stand in for the data rank when the data shape is known.
+        let data_rank = if let Some(shape) = layer_context.shapes_map.get(&layer.inputs[0]) {
+            shape.len()
+        } else {
+            let indices_rank = indices_array.ndim();
+            // data_rank = output_rank - indices_rank + 1  (from ONNX spec:
+            // output_rank = data_rank + indices_rank - 1)
+            if indices_rank > output_shape.len() + 1 {
+                return Err(LayerError::InvalidShape {
+                    layer: LayerKind::Gather,
+                    msg: format!(
+                        "indices_rank ({indices_rank}) exceeds output_rank + 1 ({}); \
+                         cannot derive data_rank",
+                        output_shape.len() + 1
+                    ),
+                }
+                .into());
             }
-            .into());
-        }
-        let data_rank = output_shape.len() + 1 - indices_rank;
+            output_shape.len() + 1 - indices_rank
+        };
 
         let axis = if raw_axis < 0 {
             let a = data_rank as i64 + raw_axis;
-- 
2.43.0


From 9302a45f0fa273fee3139319a70682e9df27f79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:49 +0000
Subject: [PATCH 47/71] fix: ReduceMean and ReduceMax of empty axes

---
 .../circuit_functions/layers/reduce_max.rs    | 63 ++++++++++++-------
 .../circuit_functions/layers/reduce_mean.rs   | 27 +++++++-
 2 files changed, 68 insertions(+), 22 deletions(-)

diff --git a/rust/jstprove_circuits/src/circuit_functions/layers/reduce_max.rs b/rust/jstprove_circuits/src/circuit_functions/layers/reduce_max.rs
index 9fc57a8..bce2420 100644
--- a/rust/jstprove_circuits/src/circuit_functions/layers/reduce_max.rs
+++ b/rust/jstprove_circuits/src/circuit_functions/layers/reduce_max.rs
@@ -192,6 +192,29 @@ impl<C: Config, Builder: RootAPI<C>> LayerOp<C, Builder> for ReduceMaxLayer {
             .unwrap_or(1)
             != 0;
 
+        let noop_with_empty_axes = layer
+            .params
+            .as_ref()
+            .and_then(|p| {
+                if let rmpv::Value::Map(m) = p {
+                    m.iter().find_map(|(k, v)| {
+                        if k == &rmpv::Value::String("noop_with_empty_axes".into()) {
+                            if let rmpv::Value::Integer(i) = v {
+                                i.as_i64()
+                            } else {
+                                None
+                            }
+                        } else {
+                            None
+                        }
+                    })
+                } else {
+                    None
+                }
+            })
+            .unwrap_or(0)
+            != 0;
+
         let axes: Vec<usize> = {
             let from_input: Option<Vec<i64>> = if let Some(axes_name) = layer.inputs.get(1) {
                 let arr = get_w_or_b(layer_context.w_and_b_map, axes_name).map_err(|e| {
@@ -251,30 +274,28 @@ impl<C: Config, Builder: RootAPI<C>> LayerOp<C, Builder> for ReduceMaxLayer {
                 })
             });
 
-            match raw {
+            // Absent and empty axes mean the same thing.
+            match raw.filter(|v| !v.is_empty()) {
                 Some(v) => {
-                    if v.is_empty() {
-                        (0..rank).collect()
-                    } else {
-                        let mut axes: Vec<usize> = v
-                            .iter()
-                            .map(|&a| {
-                                let a = if a < 0 { a + rank as i64 } else { a };
-                                if a < 0 || a as usize >= rank {
-                                    return Err(LayerError::InvalidShape {
-                                        layer: LayerKind::ReduceMax,
-                                        msg: format!("axis {a} out of range for rank {rank}"),
-                                    }
-                                    .into());
+                    let mut axes: Vec<usize> = v
+                        .iter()
+                        .map(|&a| {
+                            let a = if a < 0 { a + rank as i64 } else { a };
+                            if a < 0 || a as usize >= rank {
+                                return Err(LayerError::InvalidShape {
+                                    layer: LayerKind::ReduceMax,
+                                    msg: format!("axis {a} out of range for rank {rank}"),
                                 }
-                                Ok(a as usize)
-                            })
-                            .collect::<Result<Vec<usize>, CircuitError>>()?;
-                        axes.sort_unstable();
-                        axes.dedup();
-                        axes
-                    }
+                                .into());
+                            }
+                            Ok(a as usize)
+                        })
+                        .collect::<Result<Vec<usize>, CircuitError>>()?;
+                    axes.sort_unstable();
+                    axes.dedup();
+                    axes
                 }
+                None if noop_with_empty_axes => vec![],
                 None => (0..rank).collect(),
             }
         };
diff --git a/rust/jstprove_circuits/src/circuit_functions/layers/reduce_mean.rs b/rust/jstprove_circuits/src/circuit_functions/layers/reduce_mean.rs
index 4cb4f49..eb06c50 100644
--- a/rust/jstprove_circuits/src/circuit_functions/layers/reduce_mean.rs
+++ b/rust/jstprove_circuits/src/circuit_functions/layers/reduce_mean.rs
@@ -216,6 +216,29 @@ impl<C: Config, Builder: RootAPI<C>> LayerOp<C, Builder> for ReduceMeanLayer {
             .unwrap_or(1)
             != 0;
 
+        let noop_with_empty_axes = layer
+            .params
+            .as_ref()
+            .and_then(|p| {
+                if let rmpv::Value::Map(m) = p {
+                    m.iter().find_map(|(k, v)| {
+                        if k == &rmpv::Value::String("noop_with_empty_axes".into()) {
+                            if let rmpv::Value::Integer(i) = v {
+                                i.as_i64()
+                            } else {
+                                None
+                            }
+                        } else {
+                            None
+                        }
+                    })
+                } else {
+                    None
+                }
+            })
+            .unwrap_or(0)
+            != 0;
+
         let axes: Vec<usize> = {
             let from_input: Option<Vec<i64>> = layer.inputs.get(1).and_then(|axes_name| {
                 get_w_or_b(layer_context.w_and_b_map, axes_name)
@@ -252,7 +275,8 @@ impl<C: Config, Builder: RootAPI<C>> LayerOp<C, Builder> for ReduceMeanLayer {
                     }
                 })
             });
-            match raw {
+            // Absent and empty axes mean the same thing.
+            match raw.filter(|v| !v.is_empty()) {
                 Some(v) => {
                     let mut axes: Vec<usize> = v
                         .iter()
@@ -272,6 +296,7 @@ impl<C: Config, Builder: RootAPI<C>> LayerOp<C, Builder> for ReduceMeanLayer {
                     axes.dedup();
                     axes
                 }
+                None if noop_with_empty_axes => vec![],
                 None => (0..rank).collect(),
             }
         };
-- 
2.43.0


From b88047ce1be0ccd08af1ffc825f951f82d5a918a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:49 +0000
Subject: [PATCH 48/71] fix: range checks of partial chunks refuse negative
 values

Sqrt relied on the old behaviour: its rounded root leaves a negative remainder.
---
 compiler/circuit-std-rs/src/logup.rs          | 48 ++++++-------------
 .../src/circuit_functions/layers/sqrt.rs      |  7 +--
 2 files changed, 19 insertions(+), 36 deletions(-)

diff --git a/compiler/circuit-std-rs/src/logup.rs b/compiler/circuit-std-rs/src/logup.rs
index 452e3ae..5f9093b 100644
--- a/compiler/circuit-std-rs/src/logup.rs
+++ b/compiler/circuit-std-rs/src/logup.rs
@@ -368,27 +368,13 @@ impl LogUpRangeProofTable {
             self.rangeproof_onechunk(builder, a, n);
             return;
         }
-        //add a shift value
-        let mut n = n;
-        let mut new_a = a;
+        // round up to whole chunks; the last one keeps only `rem` bits
         let rem = n % self.rangeproof_bits;
-        if rem != 0 {
-            let shift = self.rangeproof_bits - rem;
-            let constant = (1 << shift) - 1;
-
-            let mut mul_factor: u128 = 1;
-            mul_factor <<= n;
-            let mul_factor_u256 = U256::new(mul_factor);
-            let mul_factor_var = CircuitField::<C>::from_u256(mul_factor_u256);
-            let mul_factor = builder.constant(mul_factor_var);
-            let a_shift = builder.mul(constant, mul_factor);
-            new_a = builder.add(a, a_shift);
-            n += shift;
-        }
+        let n = n.next_multiple_of(self.rangeproof_bits);
         let hint_input = vec![
             builder.constant(n as u32),
             builder.constant(self.rangeproof_bits as u32),
-            new_a,
+            a,
         ];
         let witnesses = builder.new_hint(
             "myhint.rangeproofhint",
@@ -404,10 +390,13 @@ impl LogUpRangeProofTable {
             let mul = builder.mul(witness, constant);
             sum = builder.add(sum, mul);
         }
-        builder.assert_is_equal(sum, new_a);
-        for witness in witnesses.iter().take(n / self.rangeproof_bits) {
+        builder.assert_is_equal(sum, a);
+        let (last, full) = witnesses.split_last().unwrap();
+        for witness in full {
             self.query_range(*witness);
         }
+        let last_bits = if rem == 0 { self.rangeproof_bits } else { rem };
+        self.rangeproof_onechunk(builder, *last, last_bits);
     }
 
     pub fn rangeproof_onechunk<C: Config, B: RootAPI<C>>(
@@ -420,21 +409,14 @@ impl LogUpRangeProofTable {
         if n > self.rangeproof_bits {
             panic!("n must be less than self.rangeproof_bits");
         }
-        //add a shift value
-        let mut new_a = a;
-        if n % self.rangeproof_bits != 0 {
-            let rem = n % self.rangeproof_bits;
-            let shift = self.rangeproof_bits - rem;
-            let constant = (1 << shift) - 1;
-            let mut mul_factor: u128 = 1;
-            mul_factor <<= n;
-            let mul_factor_u256 = U256::new(mul_factor);
-            let mul_factor_var = CircuitField::<C>::from_u256(mul_factor_u256);
-            let mul_factor = builder.constant(mul_factor_var);
-            let a_shift = builder.mul(constant, mul_factor);
-            new_a = builder.add(a, a_shift);
+        self.query_range(a);
+        if n < self.rangeproof_bits {
+            // a is a chunk, and still one after moving [0, 2^n) to the top of
+            // the chunk range: neither bound can be left out
+            let shift = builder.constant((1u32 << self.rangeproof_bits) - (1u32 << n));
+            let shifted = builder.add(a, shift);
+            self.query_range(shifted);
         }
-        self.query_range(new_a);
     }
 
     pub fn query_range(&mut self, key: Variable) {
diff --git a/rust/jstprove_circuits/src/circuit_functions/layers/sqrt.rs b/rust/jstprove_circuits/src/circuit_functions/layers/sqrt.rs
index ab2dfe8..008cc70 100644
--- a/rust/jstprove_circuits/src/circuit_functions/layers/sqrt.rs
+++ b/rust/jstprove_circuits/src/circuit_functions/layers/sqrt.rs
@@ -63,11 +63,12 @@ impl<C: Config, Builder: RootAPI<C>> LayerOp<C, Builder> for SqrtLayer {
 
             let x_times_scale = api.mul(x, scale_var);
             let y_sq = api.mul(y, y);
+            // y is the nearest integer to the root: -y <= x*scale - y^2 <= y
             let remainder = api.sub(x_times_scale, y_sq);
-            logup_ctx.range_check::<C, Builder>(api, remainder, remainder_bits)?;
+            let lower = api.add(y, remainder);
+            logup_ctx.range_check::<C, Builder>(api, lower, remainder_bits)?;
 
-            let two_y = api.add(y, y);
-            let upper = api.sub(two_y, remainder);
+            let upper = api.sub(y, remainder);
             logup_ctx.range_check::<C, Builder>(api, upper, remainder_bits)?;
 
             out_storage.push(y);
-- 
2.43.0


From dba8f33937250ffac051ffdb0e4b9ffa3d87bf6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:43 +0000
Subject: [PATCH 49/71] fix: refuse AveragePool with dilations instead of
 ignoring them

---
 .../src/circuit_functions/layers/averagepool.rs          | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/rust/jstprove_circuits/src/circuit_functions/layers/averagepool.rs b/rust/jstprove_circuits/src/circuit_functions/layers/averagepool.rs
index 5ba1655..b187f4b 100644
--- a/rust/jstprove_circuits/src/circuit_functions/layers/averagepool.rs
+++ b/rust/jstprove_circuits/src/circuit_functions/layers/averagepool.rs
@@ -366,6 +366,15 @@ impl<C: Config, Builder: RootAPI<C>> LayerOp<C, Builder> for AveragePoolLayer {
             )
             .into());
         }
+        let dilations = parse_usize_list(layer, "dilations")
+            .map_err(mk_err)?
+            .unwrap_or_default();
+        if dilations.iter().any(|&d| d != 1) {
+            return Err(mk_other(format!(
+                "AveragePool dilations={dilations:?} are not supported; only dilations of 1 are implemented"
+            ))
+            .into());
+        }
         let auto_pad = get_str_param(layer, "auto_pad").map_err(mk_other)?;
         if auto_pad
             .as_deref()
-- 
2.43.0


From 27d7e01eaf46b16f0fb92b54239f33f98f3243ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:23 +0000
Subject: [PATCH 50/71] fix: Merkle leaves hold canonically serialized field
 elements

An element that is not fully reduced in memory made its leaf unreadable,
so the opening of an honest proof was rejected.
---
 prover/tree/src/tree.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/prover/tree/src/tree.rs b/prover/tree/src/tree.rs
index 530fbcf..3b5e3f1 100644
--- a/prover/tree/src/tree.rs
+++ b/prover/tree/src/tree.rs
@@ -64,8 +64,26 @@ impl Tree {
             .chunks(PackF::PACK_SIZE)
             .map(SimdField::pack)
             .collect();
+        assert_eq!(packed_elems.len() * PackF::SIZE % LEAF_BYTES, 0);
+        assert!(packed_elems.len().is_power_of_two());
+
+        // Leaves are read back as field elements, so they hold the canonical
+        // serialization: an element in memory need not be fully reduced.
+        let mut bytes = Vec::with_capacity(packed_elems.len() * PackF::SIZE);
+        for elem in &packed_elems {
+            elem.serialize_into(&mut bytes)
+                .expect("serialization into memory does not fail");
+        }
+        let leaves = bytes
+            .chunks_exact(LEAF_BYTES)
+            .map(|chunk| {
+                let mut leaf = Leaf::default();
+                leaf.data.copy_from_slice(chunk);
+                leaf
+            })
+            .collect();
 
-        Self::compact_new_with_packed_field_elems(packed_elems)
+        Tree::new_with_leaves(leaves)
     }
 
     /// Create a tree with compact serialization of *packed* field elements as leaves.
-- 
2.43.0


From 1ead80b125345392c422cabaea7676e3a4b92734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:50 +0000
Subject: [PATCH 51/71] fix: Gemm broadcasts a column bias along the columns

---
 .../src/circuit_functions/layers/gemm.rs      | 52 ++++---------------
 1 file changed, 11 insertions(+), 41 deletions(-)

diff --git a/rust/jstprove_circuits/src/circuit_functions/layers/gemm.rs b/rust/jstprove_circuits/src/circuit_functions/layers/gemm.rs
index 53f7d40..4cc00b0 100644
--- a/rust/jstprove_circuits/src/circuit_functions/layers/gemm.rs
+++ b/rust/jstprove_circuits/src/circuit_functions/layers/gemm.rs
@@ -214,49 +214,19 @@ impl<C: Config, Builder: RootAPI<C>> LayerOp<C, Builder> for GemmLayer {
         )?;
 
         // ONNX Gemm broadcasts bias C to match the core product shape.
-        // Bias may be scalar, [N], or [1, N]; core_product is [M, N].
+        // Bias may be scalar, [N], [1, N], [M, 1] or [M, N]; core_product is [M, N].
         let target = core_product.shape();
-        let bias_broadcast = if bias_array.shape() == target {
-            bias_array
-        } else if core_product.ndim() == 2 {
-            let rows = target[0];
-            let cols = target[1];
-            // Reshape bias to [1, cols] then tile across rows.
-            let row: Vec<Variable> = if bias_array.len() == cols {
-                bias_array.iter().copied().collect()
-            } else if bias_array.len() == 1 {
-                vec![
-                    bias_array
-                        .iter()
-                        .next()
-                        .copied()
-                        .unwrap_or_else(|| api.constant(0));
-                    cols
-                ]
-            } else {
-                return Err(LayerError::InvalidShape {
-                    layer: LayerKind::Gemm,
-                    msg: format!(
-                        "bias length {} incompatible with core_product cols {cols} for layer {}",
-                        bias_array.len(),
-                        self.name
-                    ),
-                }
-                .into());
-            };
-            let flat: Vec<Variable> = (0..rows).flat_map(|_| row.iter().copied()).collect();
-            ndarray::ArrayD::from_shape_vec(ndarray::IxDyn(&[rows, cols]), flat).map_err(|_| {
-                LayerError::InvalidShape {
-                    layer: LayerKind::Gemm,
-                    msg: format!(
-                        "bias broadcast to [{rows}, {cols}] failed for layer {}",
-                        self.name
-                    ),
-                }
+        let bias_broadcast = bias_array
+            .broadcast(target)
+            .ok_or_else(|| LayerError::InvalidShape {
+                layer: LayerKind::Gemm,
+                msg: format!(
+                    "bias shape {:?} incompatible with core_product shape {target:?} for layer {}",
+                    bias_array.shape(),
+                    self.name
+                ),
             })?
-        } else {
-            bias_array
-        };
+            .to_owned();
         let result = matrix_addition(api, &core_product, bias_broadcast, LayerKind::Gemm)?;
 
         let out_array = maybe_rescale(
-- 
2.43.0


From 6e9ce588ad6c7ed99bbe865f6e40a3f1bf4f6237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:18 +0000
Subject: [PATCH 52/71] fix: reject proofs whose circuit outputs are claimed to
 be non-zero

The sum-check only ties the claimed value to whatever the outputs are. Expose the
difference between computed and public outputs and require that claim to be zero.
---
 rust/jstprove_circuits/src/onnx.rs            | 12 ++++++-
 .../src/runner/holographic.rs                 |  6 ++--
 .../src/runner/main_runner.rs                 | 36 +++++++++++--------
 .../src/runner/verify_extract.rs              | 12 ++++---
 4 files changed, 43 insertions(+), 23 deletions(-)

diff --git a/rust/jstprove_circuits/src/onnx.rs b/rust/jstprove_circuits/src/onnx.rs
index bf07d09..511c34e 100644
--- a/rust/jstprove_circuits/src/onnx.rs
+++ b/rust/jstprove_circuits/src/onnx.rs
@@ -160,7 +160,17 @@ impl Circuit<Variable> {
             api.assert_is_equal(out, combined);
         }
 
-        api.set_outputs(combined_output.iter().copied().collect());
+        // The proof binds the circuit outputs only through their claimed evaluation,
+        // which the verifier requires to be zero: expose the difference from the
+        // public outputs. It is the computed value itself while those are still zero,
+        // as in the probe pass of witness generation.
+        let differences: Vec<Variable> = self
+            .outputs
+            .iter()
+            .zip(combined_output.iter())
+            .map(|(&out, &combined)| api.sub(combined, out))
+            .collect();
+        api.set_outputs(differences);
 
         // Constant placeholders required by the circuit framework to anchor
         // the constraint system when no other fixed-value wires are present.
diff --git a/rust/jstprove_circuits/src/runner/holographic.rs b/rust/jstprove_circuits/src/runner/holographic.rs
index 3e72089..6a6e749 100644
--- a/rust/jstprove_circuits/src/runner/holographic.rs
+++ b/rust/jstprove_circuits/src/runner/holographic.rs
@@ -13,7 +13,9 @@ use gkr_engine::PolynomialCommitmentType;
 use poly_commit::expander_pcs_init_testing_only;
 
 use crate::runner::errors::RunError;
-use crate::runner::main_runner::{auto_decompress_bytes, load_circuit_from_bytes};
+use crate::runner::main_runner::{
+    auto_decompress_bytes, claims_zero_outputs, load_circuit_from_bytes,
+};
 
 /// # Errors
 /// Returns `RunError` on deserialization, compilation, or serialization failure.
@@ -327,7 +329,7 @@ where
         )));
     }
 
-    Ok(gkr_verified & holo_verified & verified)
+    Ok(gkr_verified & holo_verified & verified & claims_zero_outputs::<C>(&combined.claimed_v))
 }
 
 #[allow(
diff --git a/rust/jstprove_circuits/src/runner/main_runner.rs b/rust/jstprove_circuits/src/runner/main_runner.rs
index 3282060..67c7ec3 100644
--- a/rust/jstprove_circuits/src/runner/main_runner.rs
+++ b/rust/jstprove_circuits/src/runner/main_runner.rs
@@ -599,6 +599,13 @@ fn prove_core<C: Config>(
     Ok(())
 }
 
+/// Whether a proof claims that every output of the circuit is zero, which is what a
+/// satisfied circuit evaluates to. The sum-check alone only ties the claim to whatever
+/// the outputs happen to be.
+pub(crate) fn claims_zero_outputs<C: Config>(claimed_v: &ChallengeField<C>) -> bool {
+    arith::Field::is_zero(claimed_v)
+}
+
 fn run_verification<C: Config>(
     expander_circuit: &mut expander_compiler::expander_circuit::Circuit<C::FieldConfig>,
     witness_path: &str,
@@ -653,13 +660,14 @@ fn run_verification<C: Config>(
         }
     };
 
-    let valid = executor::verify_with_progress::<C>(
-        expander_circuit,
-        mpi_config,
-        &proof,
-        &claimed_v,
-        Some(&on_layer),
-    );
+    let valid = claims_zero_outputs::<C>(&claimed_v)
+        && executor::verify_with_progress::<C>(
+            expander_circuit,
+            mpi_config,
+            &proof,
+            &claimed_v,
+            Some(&on_layer),
+        );
 
     if !valid {
         let msg = if let Some((idx, total)) = first_failure.get() {
@@ -804,7 +812,7 @@ fn run_debug_verification<C: Config>(
         &proof,
         &claimed_v,
         Some(&on_layer),
-    );
+    ) && claims_zero_outputs::<C>(&claimed_v);
 
     let results = layer_results.into_inner();
 
@@ -1366,7 +1374,9 @@ where
             .map_err(|e| format!("proof load: {e:?}"))?;
 
     let mpi_config = MPIConfig::verifier_new(1);
-    if executor::verify::<C>(&mut circuit, mpi_config, &proof, &claimed_v) {
+    if claims_zero_outputs::<C>(&claimed_v)
+        && executor::verify::<C>(&mut circuit, mpi_config, &proof, &claimed_v)
+    {
         Ok(format!("verified: {}", job.proof))
     } else {
         Err("Verification failed".into())
@@ -1573,12 +1583,8 @@ pub fn verify_from_bytes<C: Config>(
         .map_err(|e| RunError::Deserialize(format!("proof: {e:?}")))?;
 
     let mpi_config = MPIConfig::verifier_new(1);
-    Ok(executor::verify::<C>(
-        &mut expander_circuit,
-        mpi_config,
-        &proof,
-        &claimed_v,
-    ))
+    Ok(claims_zero_outputs::<C>(&claimed_v)
+        && executor::verify::<C>(&mut expander_circuit, mpi_config, &proof, &claimed_v))
 }
 
 /// # Errors
diff --git a/rust/jstprove_circuits/src/runner/verify_extract.rs b/rust/jstprove_circuits/src/runner/verify_extract.rs
index 4f1e272..1c66bb0 100644
--- a/rust/jstprove_circuits/src/runner/verify_extract.rs
+++ b/rust/jstprove_circuits/src/runner/verify_extract.rs
@@ -11,7 +11,7 @@ use num_traits::{ToPrimitive, Zero};
 use serde::{Deserialize, Serialize};
 
 use super::errors::RunError;
-use super::main_runner::auto_decompress_bytes;
+use super::main_runner::{auto_decompress_bytes, claims_zero_outputs};
 
 #[derive(Debug, Clone, Serialize, Deserialize)]
 pub struct ExtractedOutput {
@@ -370,7 +370,8 @@ pub fn verify_and_extract_with_layered<C: Config>(
         .map_err(|e| RunError::Deserialize(format!("proof: {e:?}")))?;
 
     let mpi_config = MPIConfig::verifier_new(1);
-    let valid = executor::verify::<C>(&mut expander_circuit, mpi_config, &proof, &claimed_v);
+    let valid = claims_zero_outputs::<C>(&claimed_v)
+        && executor::verify::<C>(&mut expander_circuit, mpi_config, &proof, &claimed_v);
 
     if !valid {
         return Ok(VerifiedOutput {
@@ -437,7 +438,8 @@ pub fn verify_and_extract_with_flat<C: Config>(
         .map_err(|e| RunError::Deserialize(format!("proof: {e:?}")))?;
 
     let mpi_config = MPIConfig::verifier_new(1);
-    let valid = executor::verify::<C>(circuit, mpi_config, &proof, &claimed_v);
+    let valid = claims_zero_outputs::<C>(&claimed_v)
+        && executor::verify::<C>(circuit, mpi_config, &proof, &claimed_v);
 
     if !valid {
         return Ok(VerifiedOutput {
@@ -501,8 +503,8 @@ pub fn verify_and_extract_with_flat_ref<C: Config>(
         .map_err(|e| RunError::Deserialize(format!("proof: {e:?}")))?;
 
     let mpi_config = MPIConfig::verifier_new(1);
-    let valid =
-        executor::verify_ref::<C>(circuit, &simd_public_input, mpi_config, &proof, &claimed_v);
+    let valid = claims_zero_outputs::<C>(&claimed_v)
+        && executor::verify_ref::<C>(circuit, &simd_public_input, mpi_config, &proof, &claimed_v);
 
     if !valid {
         return Ok(VerifiedOutput {
-- 
2.43.0


From ccf1fa7c34280e80ff4ef9951293eee1934565d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:18 +0000
Subject: [PATCH 53/71] fix: Tanh and Sigmoid tolerances cover inputs in [-1,1]

---
 rust/jstprove_circuits/src/circuit_functions/layers/sigmoid.rs | 2 +-
 rust/jstprove_circuits/src/circuit_functions/layers/tanh.rs    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust/jstprove_circuits/src/circuit_functions/layers/sigmoid.rs b/rust/jstprove_circuits/src/circuit_functions/layers/sigmoid.rs
index 9d16b69..816d393 100644
--- a/rust/jstprove_circuits/src/circuit_functions/layers/sigmoid.rs
+++ b/rust/jstprove_circuits/src/circuit_functions/layers/sigmoid.rs
@@ -43,7 +43,7 @@ impl<C: Config, Builder: RootAPI<C>> LayerOp<C, Builder> for SigmoidLayer {
         )));
         let zero_var = api.constant(CircuitField::<C>::from_u256(U256::from(0u64)));
 
-        let cross_tolerance = 2u64 * self.scaling;
+        let cross_tolerance = 3u64 * self.scaling;
         let cross_tol_var = api.constant(CircuitField::<C>::from_u256(U256::from(cross_tolerance)));
         let cross_tol_bits = (2 * cross_tolerance).next_power_of_two().trailing_zeros() as usize;
 
diff --git a/rust/jstprove_circuits/src/circuit_functions/layers/tanh.rs b/rust/jstprove_circuits/src/circuit_functions/layers/tanh.rs
index b4b1b73..2984dcc 100644
--- a/rust/jstprove_circuits/src/circuit_functions/layers/tanh.rs
+++ b/rust/jstprove_circuits/src/circuit_functions/layers/tanh.rs
@@ -39,7 +39,7 @@ impl<C: Config, Builder: RootAPI<C>> LayerOp<C, Builder> for TanhLayer {
         let shape = x_input.shape().to_vec();
         let scale = self.scaling;
         let scale_var = api.constant(CircuitField::<C>::from_u256(U256::from(scale)));
-        let cross_tolerance = 3u64 * scale;
+        let cross_tolerance = 6u64 * scale;
         let cross_tol_var = api.constant(CircuitField::<C>::from_u256(U256::from(cross_tolerance)));
         let two_cross_tol_var = api.constant(CircuitField::<C>::from_u256(U256::from(
             2 * cross_tolerance,
-- 
2.43.0


From 8676680fb2ee54cc1f54a9077c7761afb015aba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:18 +0000
Subject: [PATCH 54/71] fix: challenges depend on the public inputs

---
 .../gkr/src/holographic/challenge_extract.rs  |  2 +
 prover/gkr/src/prover/snark.rs                | 20 +++++
 prover/gkr/src/verifier/snark.rs              | 82 +++++++++++++------
 3 files changed, 78 insertions(+), 26 deletions(-)

diff --git a/prover/gkr/src/holographic/challenge_extract.rs b/prover/gkr/src/holographic/challenge_extract.rs
index 0234fdb..bc37f9e 100644
--- a/prover/gkr/src/holographic/challenge_extract.rs
+++ b/prover/gkr/src/holographic/challenge_extract.rs
@@ -11,6 +11,7 @@ use sumcheck::{GKRVerifierHelper, VerifierScratchPad};
 use transcript::transcript_verifier_sync;
 
 use super::prove::LayerEvalPoint;
+use crate::absorb_public_input;
 
 pub struct PerLayerChallenge<F: FieldEngine> {
     pub layer_index: usize,
@@ -64,6 +65,7 @@ where
     let mut buffer = vec![];
     commitment.serialize_into(&mut buffer).ok()?;
     transcript.append_commitment(&buffer);
+    absorb_public_input(&mut transcript, public_input);
 
     #[cfg(feature = "grinding")]
     crate::prover::snark::grind::<Cfg>(
diff --git a/prover/gkr/src/prover/snark.rs b/prover/gkr/src/prover/snark.rs
index 252fc20..310eb29 100644
--- a/prover/gkr/src/prover/snark.rs
+++ b/prover/gkr/src/prover/snark.rs
@@ -16,6 +16,19 @@ use utils::timer::Timer;
 
 use crate::{gkr_prove, gkr_square_prove};
 
+/// Bind the challenges to the public inputs, so that those cannot be chosen afterwards.
+/// They are part of the statement, hence not written to the proof.
+pub(crate) fn absorb_public_input<F: Field>(transcript: &mut impl Transcript, public_input: &[F]) {
+    if public_input.is_empty() {
+        return;
+    }
+    transcript.lock_proof();
+    for v in public_input {
+        transcript.append_field_element(v);
+    }
+    transcript.unlock_proof();
+}
+
 #[cfg(feature = "grinding")]
 pub(crate) fn grind<Cfg: GKREngine>(transcript: &mut impl Transcript, mpi_config: &MPIConfig) {
     use crate::GRINDING_BITS;
@@ -116,6 +129,13 @@ impl<Cfg: GKREngine> Prover<Cfg> {
         }
         pcs_commit_timer.stop();
 
+        let mut public_input = vec![];
+        self.mpi_config
+            .gather_vec(&c.public_input, &mut public_input);
+        if self.mpi_config.is_root() {
+            absorb_public_input(&mut transcript, &public_input);
+        }
+
         #[cfg(feature = "grinding")]
         grind::<Cfg>(&mut transcript, &self.mpi_config);
 
diff --git a/prover/gkr/src/verifier/snark.rs b/prover/gkr/src/verifier/snark.rs
index c067db1..cecdc5c 100644
--- a/prover/gkr/src/verifier/snark.rs
+++ b/prover/gkr/src/verifier/snark.rs
@@ -21,7 +21,8 @@ use utils::timer::Timer;
 #[cfg(feature = "grinding")]
 use crate::grind;
 use crate::{
-    gkr_square_verify, gkr_verify, gkr_verify_ref, parse_proof, sumcheck_verify_gkr_layer,
+    absorb_public_input, gkr_square_verify, gkr_verify, gkr_verify_ref, parse_proof,
+    sumcheck_verify_gkr_layer,
 };
 
 #[derive(Default)]
@@ -47,6 +48,7 @@ impl<Cfg: GKREngine> Verifier<Cfg> {
         &self,
         mut proof_reader: impl Read,
         circuit: &mut Circuit<Cfg::FieldConfig>,
+        public_input: &[<Cfg::FieldConfig as FieldEngine>::SimdCircuitField],
         transcript: &mut Cfg::TranscriptConfig,
         proving_time_mpi_size: usize,
     ) -> Option<<Cfg::PCSConfig as ExpanderPCS<Cfg::FieldConfig>>::Commitment> {
@@ -60,6 +62,7 @@ impl<Cfg: GKREngine> Verifier<Cfg> {
         commitment.serialize_into(&mut buffer).ok()?;
 
         transcript.append_commitment(&buffer);
+        absorb_public_input(transcript, public_input);
 
         #[cfg(feature = "grinding")]
         grind::<Cfg>(transcript, &self.mpi_config);
@@ -315,11 +318,16 @@ impl<Cfg: GKREngine> Verifier<Cfg> {
         let mut transcript = Cfg::TranscriptConfig::new();
         let mut cursor = Cursor::new(&proof.bytes);
 
-        let commitment =
-            match self.pre_gkr(&mut cursor, circuit, &mut transcript, proving_time_mpi_size) {
-                Some(c) => c,
-                None => return false,
-            };
+        let commitment = match self.pre_gkr(
+            &mut cursor,
+            circuit,
+            public_input,
+            &mut transcript,
+            proving_time_mpi_size,
+        ) {
+            Some(c) => c,
+            None => return false,
+        };
 
         let (mut verified, mut challenge_x, mut challenge_y, claim_x, claim_y) = self.gkr(
             circuit,
@@ -365,11 +373,16 @@ impl<Cfg: GKREngine> Verifier<Cfg> {
         let mut transcript = Cfg::TranscriptConfig::new();
         let mut cursor = Cursor::new(&proof.bytes);
 
-        let commitment =
-            match self.pre_gkr(&mut cursor, circuit, &mut transcript, proving_time_mpi_size) {
-                Some(c) => c,
-                None => return false,
-            };
+        let commitment = match self.pre_gkr(
+            &mut cursor,
+            circuit,
+            public_input,
+            &mut transcript,
+            proving_time_mpi_size,
+        ) {
+            Some(c) => c,
+            None => return false,
+        };
 
         let (mut verified, mut challenge_x, mut challenge_y, claim_x, claim_y) = self.gkr(
             circuit,
@@ -413,11 +426,16 @@ impl<Cfg: GKREngine> Verifier<Cfg> {
         let mut transcript = Cfg::TranscriptConfig::new();
         let mut cursor = Cursor::new(&proof.bytes);
 
-        let commitment =
-            match self.pre_gkr(&mut cursor, circuit, &mut transcript, proving_time_mpi_size) {
-                Some(c) => c,
-                None => return false,
-            };
+        let commitment = match self.pre_gkr(
+            &mut cursor,
+            circuit,
+            public_input,
+            &mut transcript,
+            proving_time_mpi_size,
+        ) {
+            Some(c) => c,
+            None => return false,
+        };
 
         let (mut verified, mut challenge_x, mut challenge_y, claim_x, claim_y) = self.gkr_parallel(
             circuit,
@@ -449,6 +467,7 @@ impl<Cfg: GKREngine> Verifier<Cfg> {
         &self,
         mut proof_reader: impl Read,
         circuit: &Circuit<Cfg::FieldConfig>,
+        public_input: &[<Cfg::FieldConfig as FieldEngine>::SimdCircuitField],
         transcript: &mut Cfg::TranscriptConfig,
         proving_time_mpi_size: usize,
     ) -> Option<(
@@ -465,6 +484,7 @@ impl<Cfg: GKREngine> Verifier<Cfg> {
         commitment.serialize_into(&mut buffer).ok()?;
 
         transcript.append_commitment(&buffer);
+        absorb_public_input(transcript, public_input);
 
         #[cfg(feature = "grinding")]
         grind::<Cfg>(transcript, &self.mpi_config);
@@ -557,11 +577,16 @@ impl<Cfg: GKREngine> Verifier<Cfg> {
         let mut transcript = Cfg::TranscriptConfig::new();
         let mut cursor = Cursor::new(&proof.bytes);
 
-        let (commitment, rnd_map) =
-            match self.pre_gkr_ref(&mut cursor, circuit, &mut transcript, proving_time_mpi_size) {
-                Some(v) => v,
-                None => return false,
-            };
+        let (commitment, rnd_map) = match self.pre_gkr_ref(
+            &mut cursor,
+            circuit,
+            public_input,
+            &mut transcript,
+            proving_time_mpi_size,
+        ) {
+            Some(v) => v,
+            None => return false,
+        };
 
         let (mut verified, mut challenge_x, mut challenge_y, claim_x, claim_y) = self.gkr_ref(
             circuit,
@@ -608,11 +633,16 @@ impl<Cfg: GKREngine> Verifier<Cfg> {
         let mut transcript = Cfg::TranscriptConfig::new();
         let mut cursor = Cursor::new(&proof.bytes);
 
-        let (commitment, rnd_map) =
-            match self.pre_gkr_ref(&mut cursor, circuit, &mut transcript, proving_time_mpi_size) {
-                Some(v) => v,
-                None => return false,
-            };
+        let (commitment, rnd_map) = match self.pre_gkr_ref(
+            &mut cursor,
+            circuit,
+            public_input,
+            &mut transcript,
+            proving_time_mpi_size,
+        ) {
+            Some(v) => v,
+            None => return false,
+        };
 
         let (mut verified, mut challenge_x, mut challenge_y, claim_x, claim_y) = self.gkr_ref(
             circuit,
-- 
2.43.0


From 7b3ff3b648dc95ed3d17412584bb0807617b0094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:27 +0000
Subject: [PATCH 55/71] fix: Div by a fractional constant is refused, not
 truncated to an integer

---
 rust/jstprove_circuits/src/expander_metadata.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rust/jstprove_circuits/src/expander_metadata.rs b/rust/jstprove_circuits/src/expander_metadata.rs
index 81108f3..ba5be33 100644
--- a/rust/jstprove_circuits/src/expander_metadata.rs
+++ b/rust/jstprove_circuits/src/expander_metadata.rs
@@ -366,6 +366,11 @@ fn build_wandb(
                 "layer '{}': fractional exponents are not supported",
                 layer.name
             );
+            anyhow::ensure!(
+                layer.op_type != OpType::Div || td.float_data.iter().all(|v| v.fract() == 0.0),
+                "layer '{}': fractional divisors are not supported",
+                layer.name
+            );
 
             let shape = td.shape();
             let tensor_data = td.as_i64_vec();
-- 
2.43.0


From 5880b26fc4ec009d36aba81bee5ecc991ff8ebde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:27 +0000
Subject: [PATCH 56/71] fix: the quotient of the exp lookup is range-checked,
 so Exp has one result

---
 .../circuit_functions/gadgets/euclidean_division.rs    | 10 ++++++++++
 .../src/circuit_functions/gadgets/function_lookup.rs   |  6 +++++-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/rust/jstprove_circuits/src/circuit_functions/gadgets/euclidean_division.rs b/rust/jstprove_circuits/src/circuit_functions/gadgets/euclidean_division.rs
index 8925d72..8ad6c80 100644
--- a/rust/jstprove_circuits/src/circuit_functions/gadgets/euclidean_division.rs
+++ b/rust/jstprove_circuits/src/circuit_functions/gadgets/euclidean_division.rs
@@ -1,3 +1,4 @@
+use ethnum::U256;
 use expander_compiler::frontend::{CircuitField, Config, FieldArith, RootAPI, Variable};
 
 use crate::circuit_functions::{gadgets::LogupRangeCheckContext, utils::RescaleError};
@@ -129,6 +130,15 @@ pub(crate) fn div_pos_integer_pow2_constant_inner<C: Config, Builder: RootAPI<C>
     Ok(quotient)
 }
 
+/// Width in which a non-negative quotient by a divisor below `2^divisor_bits` can
+/// be range-checked so that neither it nor the dividend rebuilt from it wraps in
+/// the field: at most 64 bits, and less in a small field.
+#[must_use]
+pub fn quotient_bits<C: Config>(divisor_bits: usize) -> usize {
+    let field_bits = (U256::BITS - CircuitField::<C>::MODULUS.leading_zeros()) as usize;
+    field_bits.saturating_sub(divisor_bits + 2).min(64)
+}
+
 /// Performs division of a positive integer variable by an **arbitrary positive
 /// constant** inside the circuit, with range-checked quotient and remainder.
 ///
diff --git a/rust/jstprove_circuits/src/circuit_functions/gadgets/function_lookup.rs b/rust/jstprove_circuits/src/circuit_functions/gadgets/function_lookup.rs
index 20d80f1..8036587 100644
--- a/rust/jstprove_circuits/src/circuit_functions/gadgets/function_lookup.rs
+++ b/rust/jstprove_circuits/src/circuit_functions/gadgets/function_lookup.rs
@@ -3,7 +3,9 @@ use ethnum::U256;
 use expander_compiler::frontend::{CircuitField, Config, FieldArith, RootAPI, Variable};
 
 use crate::circuit_functions::{
-    CircuitError, gadgets::range_check::LogupRangeCheckContext, hints::exp::EXP_HINT_KEY,
+    CircuitError,
+    gadgets::{euclidean_division::quotient_bits, range_check::LogupRangeCheckContext},
+    hints::exp::EXP_HINT_KEY,
 };
 
 pub const MAX_FUNCTION_LOOKUP_BITS: usize = 24;
@@ -183,6 +185,8 @@ impl DecomposedExpLookup {
         let y_recon = api.add(y_recon, remainder);
         api.assert_is_equal(y_recon, product);
         logup_ctx.range_check::<C, B>(api, remainder, self.scale_bits)?;
+        // Without this bound any remainder is a valid one for some field element y.
+        logup_ctx.range_check::<C, B>(api, y, quotient_bits::<C>(self.scale_bits))?;
 
         Ok(y)
     }
-- 
2.43.0


From cd928f15cbb3d2eebf182ab5f8ecc1272cbfe9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:27 +0000
Subject: [PATCH 57/71] fix: Erf's tolerance is in units of its result, and its
 quotients are range-checked

---
 .../src/circuit_functions/layers/erf.rs       | 41 +++++++++++++------
 1 file changed, 29 insertions(+), 12 deletions(-)

diff --git a/rust/jstprove_circuits/src/circuit_functions/layers/erf.rs b/rust/jstprove_circuits/src/circuit_functions/layers/erf.rs
index f28efff..371fb75 100644
--- a/rust/jstprove_circuits/src/circuit_functions/layers/erf.rs
+++ b/rust/jstprove_circuits/src/circuit_functions/layers/erf.rs
@@ -39,6 +39,7 @@ fn erf_div_rem<C: Config, B: RootAPI<C>>(
     num: Variable,
     den: Variable,
     rem_bits: usize,
+    quo_bits: usize,
 ) -> Result<Variable, CircuitError> {
     let q = api.unconstrained_int_div(num, den);
     let r = api.unconstrained_mod(num, den);
@@ -46,6 +47,7 @@ fn erf_div_rem<C: Config, B: RootAPI<C>>(
     let recon = api.add(recon, r);
     api.assert_is_equal(recon, num);
     logup_ctx.range_check::<C, B>(api, r, rem_bits)?;
+    logup_ctx.range_check::<C, B>(api, q, quo_bits)?;
     Ok(q)
 }
 
@@ -90,7 +92,9 @@ impl<C: Config, Builder: RootAPI<C>> LayerOp<C, Builder> for ErfLayer {
         let abs_a2_var = api.constant(CircuitField::<C>::from_u256(U256::from(abs_a2_q)));
         let abs_a4_var = api.constant(CircuitField::<C>::from_u256(U256::from(abs_a4_q)));
 
-        let cross_tolerance = 4u64 * scale;
+        // y and the polynomial are both in units of 1/scale: only the rounding of
+        // the ten divisions below and of the exp lookup separates them.
+        let cross_tolerance = 16u64;
         let cross_tol_var = api.constant(CircuitField::<C>::from_u256(U256::from(cross_tolerance)));
         let two_cross_tol_var = api.constant(CircuitField::<C>::from_u256(U256::from(
             2 * cross_tolerance,
@@ -102,6 +106,8 @@ impl<C: Config, Builder: RootAPI<C>> LayerOp<C, Builder> for ErfLayer {
         let two_t_tol_var = api.constant(CircuitField::<C>::from_u256(U256::from(2 * t_tolerance)));
         let t_tol_bits = (2 * t_tolerance).next_power_of_two().trailing_zeros() as usize;
 
+        // The polynomial's coefficients keep every intermediate value below 4*scale.
+        let quo_bits = se + 2;
         let lookup_bits = function_lookup_bits(self.scale_exponent);
         let mut decomposed = DecomposedExpLookup::build::<C, Builder>(
             api,
@@ -128,10 +134,12 @@ impl<C: Config, Builder: RootAPI<C>> LayerOp<C, Builder> for ErfLayer {
             logup_ctx.range_check::<C, Builder>(api, abs_x, self.n_bits)?;
 
             let p_abs = api.mul(p_var, abs_x);
-            let p_scaled = erf_div_rem::<C, Builder>(api, logup_ctx, p_abs, scale_var, se)?;
+            let p_scaled =
+                erf_div_rem::<C, Builder>(api, logup_ctx, p_abs, scale_var, se, self.n_bits)?;
             let denom = api.add(scale_var, p_scaled);
 
-            let t = erf_div_rem::<C, Builder>(api, logup_ctx, scale_sq_var, denom, se + 1)?;
+            let t =
+                erf_div_rem::<C, Builder>(api, logup_ctx, scale_sq_var, denom, se + 1, quo_bits)?;
             logup_ctx.range_check::<C, Builder>(api, t, self.n_bits)?;
             let t_denom = api.mul(t, denom);
             let t_diff = api.sub(t_denom, scale_sq_var);
@@ -141,36 +149,45 @@ impl<C: Config, Builder: RootAPI<C>> LayerOp<C, Builder> for ErfLayer {
             logup_ctx.range_check::<C, Builder>(api, t_upper, t_tol_bits)?;
 
             let t_sq = api.mul(t, t);
-            let t_sq_div = erf_div_rem::<C, Builder>(api, logup_ctx, t_sq, scale_var, se)?;
+            let t_sq_div =
+                erf_div_rem::<C, Builder>(api, logup_ctx, t_sq, scale_var, se, quo_bits)?;
 
             let a5_tsq = api.mul(a5_var, t_sq_div);
-            let a5_tsq_div = erf_div_rem::<C, Builder>(api, logup_ctx, a5_tsq, scale_var, se)?;
+            let a5_tsq_div =
+                erf_div_rem::<C, Builder>(api, logup_ctx, a5_tsq, scale_var, se, quo_bits)?;
             let pos_inner2 = api.add(a3_var, a5_tsq_div);
 
             let pi2_tsq = api.mul(pos_inner2, t_sq_div);
-            let pi2_tsq_div = erf_div_rem::<C, Builder>(api, logup_ctx, pi2_tsq, scale_var, se)?;
+            let pi2_tsq_div =
+                erf_div_rem::<C, Builder>(api, logup_ctx, pi2_tsq, scale_var, se, quo_bits)?;
             let pos_inner1 = api.add(a1_var, pi2_tsq_div);
 
             let pos_t = api.mul(t, pos_inner1);
-            let pos_val = erf_div_rem::<C, Builder>(api, logup_ctx, pos_t, scale_var, se)?;
+            let pos_val =
+                erf_div_rem::<C, Builder>(api, logup_ctx, pos_t, scale_var, se, quo_bits)?;
 
             let a4_tsq = api.mul(abs_a4_var, t_sq_div);
-            let a4_tsq_div = erf_div_rem::<C, Builder>(api, logup_ctx, a4_tsq, scale_var, se)?;
+            let a4_tsq_div =
+                erf_div_rem::<C, Builder>(api, logup_ctx, a4_tsq, scale_var, se, quo_bits)?;
             let neg_inner = api.add(abs_a2_var, a4_tsq_div);
 
             let neg_tsq = api.mul(neg_inner, t_sq_div);
-            let neg_val = erf_div_rem::<C, Builder>(api, logup_ctx, neg_tsq, scale_var, se)?;
+            let neg_val =
+                erf_div_rem::<C, Builder>(api, logup_ctx, neg_tsq, scale_var, se, quo_bits)?;
 
             let abs_x_sq = api.mul(abs_x, abs_x);
-            let x_sq = erf_div_rem::<C, Builder>(api, logup_ctx, abs_x_sq, scale_var, se)?;
+            let x_sq =
+                erf_div_rem::<C, Builder>(api, logup_ctx, abs_x_sq, scale_var, se, lookup_bits)?;
             let neg_x_sq = api.sub(zero_var, x_sq);
             let exp_neg_x_sq = decomposed.verify_exp::<C, Builder>(api, logup_ctx, neg_x_sq)?;
 
             let pos_exp_prod = api.mul(pos_val, exp_neg_x_sq);
-            let pos_exp = erf_div_rem::<C, Builder>(api, logup_ctx, pos_exp_prod, scale_var, se)?;
+            let pos_exp =
+                erf_div_rem::<C, Builder>(api, logup_ctx, pos_exp_prod, scale_var, se, quo_bits)?;
 
             let neg_exp_prod = api.mul(neg_val, exp_neg_x_sq);
-            let neg_exp = erf_div_rem::<C, Builder>(api, logup_ctx, neg_exp_prod, scale_var, se)?;
+            let neg_exp =
+                erf_div_rem::<C, Builder>(api, logup_ctx, neg_exp_prod, scale_var, se, quo_bits)?;
 
             let erf_abs = api.sub(scale_var, pos_exp);
             let erf_abs = api.add(erf_abs, neg_exp);
-- 
2.43.0


From 6ea3790a17223de2cb42c39eb5c1ec3ef24bbef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:27 +0000
Subject: [PATCH 58/71] fix: HardSwish bounds its result, which the
 cross-multiplied check alone does not

---
 .../src/circuit_functions/layers/hardswish.rs            | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/rust/jstprove_circuits/src/circuit_functions/layers/hardswish.rs b/rust/jstprove_circuits/src/circuit_functions/layers/hardswish.rs
index 5a2d56b..3cc4207 100644
--- a/rust/jstprove_circuits/src/circuit_functions/layers/hardswish.rs
+++ b/rust/jstprove_circuits/src/circuit_functions/layers/hardswish.rs
@@ -53,6 +53,10 @@ impl<C: Config, Builder: RootAPI<C>> LayerOp<C, Builder> for HardSwishLayer {
         let shift_ctx =
             ShiftRangeContext::new::<C, Builder>(api, LayerKind::HardSwish, clip_shift_exponent)?;
 
+        let y_offset_var = api.constant(CircuitField::<C>::from_u256(
+            U256::ONE << (clip_shift_exponent as u32),
+        ));
+
         let cross_tolerance = 6u64 * alpha;
         let cross_tol_var = api.constant(CircuitField::<C>::from_u256(U256::from(cross_tolerance)));
         let two_cross_tol_var = api.constant(CircuitField::<C>::from_u256(U256::from(
@@ -86,6 +90,11 @@ impl<C: Config, Builder: RootAPI<C>> LayerOp<C, Builder> for HardSwishLayer {
             let upper = api.sub(two_cross_tol_var, shifted);
             logup_ctx.range_check::<C, Builder>(api, upper, cross_tol_bits)?;
 
+            // The difference is also small for other multiples of 1/(6*alpha) in
+            // the field, so y itself has to be bounded. The clip admits x < 5*alpha.
+            let y_shifted = api.add(y, y_offset_var);
+            logup_ctx.range_check::<C, Builder>(api, y_shifted, clip_shift_exponent + 1)?;
+
             out_storage.push(y);
         }
 
-- 
2.43.0


From 0b396fa45241a05b67f733fde57a54533822462c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:27 +0000
Subject: [PATCH 59/71] fix: Gelu bounds its result and the square of its input

---
 .../src/circuit_functions/layers/gelu.rs                  | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/rust/jstprove_circuits/src/circuit_functions/layers/gelu.rs b/rust/jstprove_circuits/src/circuit_functions/layers/gelu.rs
index 9ef3a7f..74374e0 100644
--- a/rust/jstprove_circuits/src/circuit_functions/layers/gelu.rs
+++ b/rust/jstprove_circuits/src/circuit_functions/layers/gelu.rs
@@ -75,6 +75,8 @@ impl<C: Config, Builder: RootAPI<C>> LayerOp<C, Builder> for GeluLayer {
         let field_bits = (U256::BITS - CircuitField::<C>::MODULUS.leading_zeros()) as usize;
         let cubic_shift_exponent =
             lookup_bits.min(field_bits.saturating_sub(2 * scale_exponent + 2));
+        // x lies inside the exp lookup domain as well, which bounds its square.
+        let x_sq_bits = (2 * lookup_bits - 1).saturating_sub(scale_exponent);
         let pow2 = |e: usize| {
             CircuitField::<C>::from_u256(U256::ONE << u32::try_from(e).unwrap_or(u32::MAX))
         };
@@ -102,6 +104,7 @@ impl<C: Config, Builder: RootAPI<C>> LayerOp<C, Builder> for GeluLayer {
             let x_sq_recon = api.add(x_sq_recon, x_sq_rem);
             api.assert_is_equal(x_sq_recon, x_sq);
             logup_ctx.range_check::<C, Builder>(api, x_sq_rem, self.scale_exponent as usize)?;
+            logup_ctx.range_check::<C, Builder>(api, x_sq_div_alpha, x_sq_bits)?;
 
             let x_cubed_a2 = api.mul(x_sq_div_alpha, x);
 
@@ -145,6 +148,11 @@ impl<C: Config, Builder: RootAPI<C>> LayerOp<C, Builder> for GeluLayer {
             let shifted = api.add(diff, cross_tol_var);
             logup_ctx.range_check::<C, Builder>(api, shifted, cross_tol_bits)?;
 
+            // The difference is also small for other multiples of 1/denom in the
+            // field, so y itself has to be bounded: |y| <= |x|, inside the domain.
+            let y_shifted = api.add(y, z_shift_var);
+            logup_ctx.range_check::<C, Builder>(api, y_shifted, lookup_bits + 1)?;
+
             let _ = sigmoid_times_denom;
 
             out_storage.push(y);
-- 
2.43.0


From a986293fb012e327caec7cc0e4f0568147b336b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:27 +0000
Subject: [PATCH 60/71] fix: the quotients inside Pow are range-checked

---
 .../jstprove_circuits/src/circuit_functions/layers/pow.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rust/jstprove_circuits/src/circuit_functions/layers/pow.rs b/rust/jstprove_circuits/src/circuit_functions/layers/pow.rs
index 3fa6ccf..5867e3b 100644
--- a/rust/jstprove_circuits/src/circuit_functions/layers/pow.rs
+++ b/rust/jstprove_circuits/src/circuit_functions/layers/pow.rs
@@ -7,7 +7,7 @@ use expander_compiler::frontend::{CircuitField, Config, FieldArith, RootAPI, Var
 
 use crate::circuit_functions::{
     CircuitError,
-    gadgets::range_check::LogupRangeCheckContext,
+    gadgets::{euclidean_division::quotient_bits, range_check::LogupRangeCheckContext},
     layers::{LayerError, LayerKind, layer_ops::LayerOp},
     utils::{
         constants::INPUT,
@@ -40,6 +40,10 @@ fn constrained_pow_integer<C: Config, Builder: RootAPI<C>>(
         return Ok(x);
     }
 
+    // Every quotient is bounded: otherwise any remainder is a valid one for some
+    // field element.
+    let quo_bits = quotient_bits::<C>(scale_exponent as usize);
+
     let abs_exp = exp.unsigned_abs();
     let mut result = scale_var;
     let mut base = x;
@@ -54,6 +58,7 @@ fn constrained_pow_integer<C: Config, Builder: RootAPI<C>>(
             let recon = api.add(recon, rem);
             api.assert_is_equal(recon, product);
             logup_ctx.range_check::<C, Builder>(api, rem, scale_exponent as usize)?;
+            logup_ctx.range_check::<C, Builder>(api, result, quo_bits)?;
         }
         e >>= 1;
         if e > 0 {
@@ -64,6 +69,7 @@ fn constrained_pow_integer<C: Config, Builder: RootAPI<C>>(
             let sq_recon = api.add(sq_recon, sq_rem);
             api.assert_is_equal(sq_recon, sq);
             logup_ctx.range_check::<C, Builder>(api, sq_rem, scale_exponent as usize)?;
+            logup_ctx.range_check::<C, Builder>(api, base, quo_bits)?;
         }
     }
 
-- 
2.43.0


From c62ba568190da6c6b170e9986dba3b49a5fbf148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:21 +0000
Subject: [PATCH 61/71] fix: the hash of packed Goldilocks elements is that of
 their canonical form, as equality is

---
 prover/arith/goldilocks/src/goldilocksx8/goldilocks_avx256.rs | 4 ++--
 prover/arith/goldilocks/src/goldilocksx8/goldilocks_avx512.rs | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/prover/arith/goldilocks/src/goldilocksx8/goldilocks_avx256.rs b/prover/arith/goldilocks/src/goldilocksx8/goldilocks_avx256.rs
index 9c60743..b9a5cb1 100644
--- a/prover/arith/goldilocks/src/goldilocksx8/goldilocks_avx256.rs
+++ b/prover/arith/goldilocks/src/goldilocksx8/goldilocks_avx256.rs
@@ -331,8 +331,8 @@ impl Hash for AVXGoldilocks {
     #[inline(always)]
     fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
         unsafe {
-            state.write(transmute::<__m256i, [u8; 32]>(self.v[0]).as_ref());
-            state.write(transmute::<__m256i, [u8; 32]>(self.v[1]).as_ref());
+            state.write(transmute::<__m256i, [u8; 32]>(mod_reduce_epi64(self.v[0])).as_ref());
+            state.write(transmute::<__m256i, [u8; 32]>(mod_reduce_epi64(self.v[1])).as_ref());
         }
     }
 }
diff --git a/prover/arith/goldilocks/src/goldilocksx8/goldilocks_avx512.rs b/prover/arith/goldilocks/src/goldilocksx8/goldilocks_avx512.rs
index 3a19371..85f3724 100644
--- a/prover/arith/goldilocks/src/goldilocksx8/goldilocks_avx512.rs
+++ b/prover/arith/goldilocks/src/goldilocksx8/goldilocks_avx512.rs
@@ -275,7 +275,7 @@ impl Hash for AVXGoldilocks {
     #[inline(always)]
     fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
         unsafe {
-            state.write(transmute::<__m512i, [u8; 64]>(self.v).as_ref());
+            state.write(transmute::<__m512i, [u8; 64]>(mod_reduce_epi64(self.v)).as_ref());
         }
     }
 }
-- 
2.43.0


From 95f666125c424f30ef6f6c7ca48eb66f8552ab70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:21 +0000
Subject: [PATCH 62/71] fix: is_zero of packed BabyBear asks for both halves to
 be zero

---
 prover/arith/babybear/src/babybearx16/babybear_avx256.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prover/arith/babybear/src/babybearx16/babybear_avx256.rs b/prover/arith/babybear/src/babybearx16/babybear_avx256.rs
index 0d65c32..83aaf9c 100644
--- a/prover/arith/babybear/src/babybearx16/babybear_avx256.rs
+++ b/prover/arith/babybear/src/babybearx16/babybear_avx256.rs
@@ -113,7 +113,7 @@ impl Field for AVXBabyBear {
             let pcmp2_1 = _mm256_movemask_ps(_mm256_castsi256_ps(_mm256_cmpeq_epi32(
                 self.v[1], PACKED_MOD,
             )));
-            (pcmp0 | pcmp1 | pcmp2_0 | pcmp2_1) == 0xFF
+            (pcmp0 | pcmp2_0) == 0xFF && (pcmp1 | pcmp2_1) == 0xFF
         }
     }
 
-- 
2.43.0


From dec18aad1dd9fc7aa3cd80f1f0ed8d1c298ac161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:21 +0000
Subject: [PATCH 63/71] fix: packed M31 elements compare, hash and serialize in
 canonical form, the modulus being zero

---
 .../arith/mersenne31/src/m31x16/m31_avx256.rs | 28 ++++++++++++-------
 .../arith/mersenne31/src/m31x16/m31_avx512.rs | 16 +++++++----
 2 files changed, 28 insertions(+), 16 deletions(-)

diff --git a/prover/arith/mersenne31/src/m31x16/m31_avx256.rs b/prover/arith/mersenne31/src/m31x16/m31_avx256.rs
index cf8a33d..8be016e 100644
--- a/prover/arith/mersenne31/src/m31x16/m31_avx256.rs
+++ b/prover/arith/mersenne31/src/m31x16/m31_avx256.rs
@@ -29,6 +29,18 @@ unsafe fn mod_reduce_epi32_2(x: [__m256i; 2]) -> [__m256i; 2] {
     [mod_reduce_epi32(x[0]), mod_reduce_epi32(x[1])]
 }
 
+/// The representative in [0, MOD): `mod_reduce_epi32` leaves MOD, which also stands for zero
+#[inline(always)]
+unsafe fn canonical_epi32(x: __m256i) -> __m256i {
+    let x = mod_reduce_epi32(x);
+    _mm256_andnot_si256(_mm256_cmpeq_epi32(x, PACKED_MOD), x)
+}
+
+#[inline(always)]
+unsafe fn canonical_epi32_2(x: [__m256i; 2]) -> [__m256i; 2] {
+    [canonical_epi32(x[0]), canonical_epi32(x[1])]
+}
+
 #[derive(Clone, Copy)]
 pub struct AVXM31 {
     pub v: [__m256i; 2],
@@ -40,7 +52,7 @@ impl ExpSerde for AVXM31 {
     #[inline(always)]
     /// serialize self into bytes
     fn serialize_into<W: Write>(&self, mut writer: W) -> SerdeResult<()> {
-        let data = unsafe { transmute::<[__m256i; 2], [u8; 64]>(self.v) };
+        let data = unsafe { transmute::<[__m256i; 2], [u8; 64]>(canonical_epi32_2(self.v)) };
         writer.write_all(&data)?;
         Ok(())
     }
@@ -349,17 +361,13 @@ impl PartialEq for AVXM31 {
     #[inline(always)]
     fn eq(&self, other: &Self) -> bool {
         unsafe {
-            // probablisitic -- mod_reduce_epi32 only reduces one mod;
-            // i32::MAX = 2*MOD + 1 so there is a small probability that the reduced result
-            // does not lie in the field
-
             let cmp0 = _mm256_movemask_epi8(_mm256_cmpeq_epi8(
-                mod_reduce_epi32(self.v[0]),
-                mod_reduce_epi32(other.v[0]),
+                canonical_epi32(self.v[0]),
+                canonical_epi32(other.v[0]),
             ));
             let cmp1 = _mm256_movemask_epi8(_mm256_cmpeq_epi8(
-                mod_reduce_epi32(self.v[1]),
-                mod_reduce_epi32(other.v[1]),
+                canonical_epi32(self.v[1]),
+                canonical_epi32(other.v[1]),
             ));
             (cmp0 & cmp1) == !0i32
         }
@@ -549,7 +557,7 @@ impl std::hash::Hash for AVXM31 {
     #[inline(always)]
     fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
         unsafe {
-            state.write(transmute::<[__m256i; 2], [u8; 64]>(self.v).as_ref());
+            state.write(transmute::<[__m256i; 2], [u8; 64]>(canonical_epi32_2(self.v)).as_ref());
         }
     }
 }
diff --git a/prover/arith/mersenne31/src/m31x16/m31_avx512.rs b/prover/arith/mersenne31/src/m31x16/m31_avx512.rs
index 57c993c..68359b8 100644
--- a/prover/arith/mersenne31/src/m31x16/m31_avx512.rs
+++ b/prover/arith/mersenne31/src/m31x16/m31_avx512.rs
@@ -26,6 +26,13 @@ unsafe fn mod_reduce_epi32(x: __m512i) -> __m512i {
     _mm512_min_epu32(x, subx)
 }
 
+/// The representative in [0, MOD): `mod_reduce_epi32` leaves MOD, which also stands for zero
+#[inline(always)]
+unsafe fn canonical_epi32(x: __m512i) -> __m512i {
+    let x = mod_reduce_epi32(x);
+    _mm512_maskz_mov_epi32(_mm512_cmpneq_epi32_mask(x, PACKED_MOD), x)
+}
+
 #[derive(Clone, Copy)]
 pub struct AVXM31 {
     pub v: __m512i,
@@ -37,7 +44,7 @@ impl ExpSerde for AVXM31 {
     #[inline(always)]
     /// serialize self into bytes
     fn serialize_into<W: Write>(&self, mut writer: W) -> SerdeResult<()> {
-        let data = unsafe { transmute::<__m512i, [u8; 64]>(mod_reduce_epi32(self.v)) };
+        let data = unsafe { transmute::<__m512i, [u8; 64]>(canonical_epi32(self.v)) };
         writer.write_all(&data)?;
         Ok(())
     }
@@ -291,10 +298,7 @@ impl PartialEq for AVXM31 {
     #[inline(always)]
     fn eq(&self, other: &Self) -> bool {
         unsafe {
-            // probablisitic -- mod_reduce_epi32 only reduces one mod;
-            // i32::MAX = 2*MOD + 1 so there is a small probability that the reduced result
-            // does not lie in the field
-            let pcmp = _mm512_cmpeq_epi32_mask(mod_reduce_epi32(self.v), mod_reduce_epi32(other.v));
+            let pcmp = _mm512_cmpeq_epi32_mask(canonical_epi32(self.v), canonical_epi32(other.v));
             pcmp == 0xFFFF
         }
     }
@@ -440,7 +444,7 @@ impl Hash for AVXM31 {
     #[inline(always)]
     fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
         unsafe {
-            state.write(transmute::<__m512i, [u8; 64]>(self.v).as_ref());
+            state.write(transmute::<__m512i, [u8; 64]>(canonical_epi32(self.v)).as_ref());
         }
     }
 }
-- 
2.43.0


From 82a1bb1020bb2c4824db03df957a75f0d0782ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:21 +0000
Subject: [PATCH 64/71] fix: an even power of zero in GF2 is zero

---
 prover/arith/gf2/src/gf2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prover/arith/gf2/src/gf2.rs b/prover/arith/gf2/src/gf2.rs
index 83b64b8..315ee7e 100644
--- a/prover/arith/gf2/src/gf2.rs
+++ b/prover/arith/gf2/src/gf2.rs
@@ -91,7 +91,7 @@ impl Field for GF2 {
 
     #[inline(always)]
     fn exp(&self, exponent: u128) -> Self {
-        if exponent % 2 == 0 {
+        if exponent == 0 {
             Self::one()
         } else {
             *self
-- 
2.43.0


From 5d36255c0831312bc790f7f87970697ae5da6095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:21 +0000
Subject: [PATCH 65/71] fix: packed Goldilocks from u32 is not shifted by 2^63

---
 prover/arith/goldilocks/src/goldilocksx8/goldilocks_avx256.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prover/arith/goldilocks/src/goldilocksx8/goldilocks_avx256.rs b/prover/arith/goldilocks/src/goldilocksx8/goldilocks_avx256.rs
index b9a5cb1..5bed8cd 100644
--- a/prover/arith/goldilocks/src/goldilocksx8/goldilocks_avx256.rs
+++ b/prover/arith/goldilocks/src/goldilocksx8/goldilocks_avx256.rs
@@ -354,8 +354,8 @@ impl From<u32> for AVXGoldilocks {
     fn from(x: u32) -> Self {
         Self {
             v: [
-                unsafe { p3_instructions::shift(_mm256_set1_epi64x(x as i64)) },
-                unsafe { p3_instructions::shift(_mm256_set1_epi64x(x as i64)) },
+                unsafe { _mm256_set1_epi64x(x as i64) },
+                unsafe { _mm256_set1_epi64x(x as i64) },
             ],
         }
     }
-- 
2.43.0


From 0ce774f494b24d929d245023cff3acd20e3a90f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:21 +0000
Subject: [PATCH 66/71] fix: AVX-512 Goldilocks negation reduces its operand
 first

---
 prover/arith/goldilocks/src/goldilocksx8/goldilocks_avx512.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prover/arith/goldilocks/src/goldilocksx8/goldilocks_avx512.rs b/prover/arith/goldilocks/src/goldilocksx8/goldilocks_avx512.rs
index 85f3724..fc613ef 100644
--- a/prover/arith/goldilocks/src/goldilocksx8/goldilocks_avx512.rs
+++ b/prover/arith/goldilocks/src/goldilocksx8/goldilocks_avx512.rs
@@ -288,7 +288,7 @@ impl Neg for AVXGoldilocks {
             self
         } else {
             Self {
-                v: unsafe { _mm512_sub_epi64(PACKED_GOLDILOCKS_MOD, self.v) },
+                v: unsafe { _mm512_sub_epi64(PACKED_GOLDILOCKS_MOD, mod_reduce_epi64(self.v)) },
             }
         }
     }
-- 
2.43.0


From 2bfbe3a9911f44d2b1508524d6b7947821ab12e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:21 +0000
Subject: [PATCH 67/71] fix: AVX-512 GF2_128x8 refuses truncated bytes with an
 error instead of a panic

---
 prover/arith/gf2_128/src/gf2_ext128x8/avx512.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prover/arith/gf2_128/src/gf2_ext128x8/avx512.rs b/prover/arith/gf2_128/src/gf2_ext128x8/avx512.rs
index 8de2d1d..d40d46c 100644
--- a/prover/arith/gf2_128/src/gf2_ext128x8/avx512.rs
+++ b/prover/arith/gf2_128/src/gf2_ext128x8/avx512.rs
@@ -32,7 +32,7 @@ impl ExpSerde for AVX512GF2_128x8 {
     #[inline(always)]
     fn deserialize_from<R: std::io::Read>(mut reader: R) -> Result<AVX512GF2_128x8, SerdeError> {
         let mut data = [0u8; 128];
-        reader.read_exact(&mut data).unwrap();
+        reader.read_exact(&mut data)?;
         unsafe {
             Ok(Self {
                 data: transmute::<[u8; 128], [__m512i; 2]>(data),
-- 
2.43.0


From 24494b5398bf9e7b0e8c75a1b0d83cd59caa9288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:21 +0000
Subject: [PATCH 68/71] fix: BabyBear elements are ordered as integers, not by
 their Montgomery form

---
 prover/arith/src/monty.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/prover/arith/src/monty.rs b/prover/arith/src/monty.rs
index 930d24a..b9ae38f 100644
--- a/prover/arith/src/monty.rs
+++ b/prover/arith/src/monty.rs
@@ -168,8 +168,9 @@ impl<MP: FieldParameters> PartialOrd for MontyField31<MP> {
 }
 
 impl<MP: FieldParameters> Ord for MontyField31<MP> {
+    /// The order of the field elements as integers, not of their Montgomery forms.
     fn cmp(&self, other: &Self) -> Ordering {
-        self.value.cmp(&other.value)
+        from_monty::<MP>(self.value).cmp(&from_monty::<MP>(other.value))
     }
 }
 
-- 
2.43.0


From 41ac87e5c01b8dac1a4b994a75504357e7a9815f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:21 +0000
Subject: [PATCH 69/71] fix: the witness solver never contains random
 coefficients, also at optimization level 1

---
 compiler/expander_compiler/src/compile/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/compiler/expander_compiler/src/compile/mod.rs b/compiler/expander_compiler/src/compile/mod.rs
index e36adad..067ac8b 100644
--- a/compiler/expander_compiler/src/compile/mod.rs
+++ b/compiler/expander_compiler/src/compile/mod.rs
@@ -306,7 +306,9 @@ pub fn compile_step_4<C: Config>(
     r_hint_exported
         .validate()
         .map_err(|e| e.prepend("final hint exported circuit invalid"))?;
-    let r_hint_exported_opt = if options.opt_level >= 2 {
+    // The witness solver cannot evaluate random coefficients, so what no hint needs is removed at
+    // every optimization level.
+    let r_hint_exported_opt = if options.opt_level >= 1 {
         optimize_single_pass(&r_hint_exported, src_im, |r| {
             let (r, im) = r.remove_unreachable();
             (r, im)
-- 
2.43.0


From 8a48b88d0e920acfd2e9ece26df7a735b2f8e015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:21 +0000
Subject: [PATCH 70/71] fix: the flattened circuit has the same gate order in
 the prover and the verifier

---
 prover/circuit/src/ecc_circuit.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/prover/circuit/src/ecc_circuit.rs b/prover/circuit/src/ecc_circuit.rs
index c8cb782..e3cd9f2 100644
--- a/prover/circuit/src/ecc_circuit.rs
+++ b/prover/circuit/src/ecc_circuit.rs
@@ -1,5 +1,5 @@
 use gkr_engine::FieldEngine;
-use std::{cmp::max, collections::HashMap};
+use std::{cmp::max, collections::BTreeMap};
 
 use crate::*;
 
@@ -36,8 +36,9 @@ impl<C: FieldEngine> Segment<C> {
         &self,
         rc: &RecursiveCircuit<C>,
         cur_id: SegmentId,
-    ) -> HashMap<SegmentId, Vec<Allocation>> {
-        let mut ret = HashMap::new();
+    ) -> BTreeMap<SegmentId, Vec<Allocation>> {
+        // Ordered, since the prover and the verifier draw random coefficients in gate order.
+        let mut ret = BTreeMap::new();
         if self.contain_gates() {
             ret.insert(
                 cur_id,
-- 
2.43.0


From cf747b14d3e7fd72be683bfd7db76275afd784e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:21 +0000
Subject: [PATCH 71/71] fix: a witness of one wire is padded to the two wires
 of the exported circuit

---
 .../expander_compiler/src/circuit/layered/witness.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/compiler/expander_compiler/src/circuit/layered/witness.rs b/compiler/expander_compiler/src/circuit/layered/witness.rs
index c8313af..3fc0b1c 100644
--- a/compiler/expander_compiler/src/circuit/layered/witness.rs
+++ b/compiler/expander_compiler/src/circuit/layered/witness.rs
@@ -246,6 +246,18 @@ impl<C: Config, I: InputType> Circuit<C, I> {
 
 impl<C: Config> Witness<C> {
     pub fn to_simd<T>(&self) -> (Vec<T>, Vec<T>)
+    where
+        T: arith::SimdField<Scalar = CircuitField<C>> + 'static,
+    {
+        let (mut inputs, public_inputs) = self.pack_first::<T>();
+        // Every layer of an exported circuit has at least two input wires.
+        if inputs.len() == 1 {
+            inputs.push(T::zero());
+        }
+        (inputs, public_inputs)
+    }
+
+    fn pack_first<T>(&self) -> (Vec<T>, Vec<T>)
     where
         T: arith::SimdField<Scalar = CircuitField<C>> + 'static,
     {
-- 
2.43.0

