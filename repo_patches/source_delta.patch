From 8fe35bac22ec363d3a31bca924edbda011ce3dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:19 +0000
Subject: [PATCH 01/12] fix: do not let bits above the requested width leak to
 following bitpacked values

---
 packages/vorbis_bitpack/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/packages/vorbis_bitpack/src/lib.rs b/packages/vorbis_bitpack/src/lib.rs
index e1a8dd6..952f5ee 100644
--- a/packages/vorbis_bitpack/src/lib.rs
+++ b/packages/vorbis_bitpack/src/lib.rs
@@ -349,7 +349,10 @@ impl<W: Write> BitpackWriter<W> {
 		// at most 3 bytes, so the shift never overflows
 		integer >>= 8 * bytes_to_write;
 
-		self.byte_to_be_written = integer as u8;
+		// Any bits above the requested width must not leak to the pending byte, as further
+		// writes assume that its free bits are zero
+		self.byte_to_be_written =
+			(integer & ones_mask(BitpackedIntegerWidth::__internal_unchecked_new(remainder_bits))) as u8;
 		self.bits_to_be_written = remainder_bits;
 
 		Ok(())
-- 
2.43.0


From ed14d69072224f52b292c91d3d628be93b7dfa96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:19 +0000
Subject: [PATCH 02/12] fix: do not merge the last bits before finalizing a
 bitpack writer with later ones

---
 packages/vorbis_bitpack/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/vorbis_bitpack/src/lib.rs b/packages/vorbis_bitpack/src/lib.rs
index 952f5ee..3b51a55 100644
--- a/packages/vorbis_bitpack/src/lib.rs
+++ b/packages/vorbis_bitpack/src/lib.rs
@@ -408,8 +408,9 @@ impl<W: Write> BitpackWriter<W> {
 	/// destination after a call to [`flush`](Self::flush).
 	pub fn finalize(&mut self) -> Result<()> {
 		if self.bits_to_be_written > 0 {
+			let final_byte = core::mem::take(&mut self.byte_to_be_written);
 			self.bits_to_be_written = 0;
-			self.sink.write_all(&[self.byte_to_be_written])
+			self.sink.write_all(&[final_byte])
 		} else {
 			Ok(())
 		}
-- 
2.43.0


From f1dd95f444dce6a7225a9731a453fa9164d5e54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:19 +0000
Subject: [PATCH 03/12] fix: do not overflow when reading zero width signed
 integers

---
 packages/vorbis_bitpack/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/packages/vorbis_bitpack/src/lib.rs b/packages/vorbis_bitpack/src/lib.rs
index 3b51a55..ee29db1 100644
--- a/packages/vorbis_bitpack/src/lib.rs
+++ b/packages/vorbis_bitpack/src/lib.rs
@@ -442,6 +442,10 @@ const fn ones_mask(width: BitpackedIntegerWidth) -> u32 {
 /// word to a native 32-bit signed integer.
 const fn sign_extend(integer: u32, width: BitpackedIntegerWidth) -> i32 {
 	let extended_bits = 32 - width.get() as u32;
+	if extended_bits == 32 {
+		// Shifting out every bit at once would overflow. A zero width integer is zero
+		return 0;
+	}
 	(integer as i32) << extended_bits >> extended_bits
 }
 
-- 
2.43.0


From a1d267716564e627d6ccdde0f686f35122e9aa3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:34 +0000
Subject: [PATCH 04/12] fix: pack zero, small and inexact numbers to the
 nearest Vorbis float32 value

---
 packages/vorbis_bitpack/src/lib.rs | 35 +++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/packages/vorbis_bitpack/src/lib.rs b/packages/vorbis_bitpack/src/lib.rs
index ee29db1..38d5af8 100644
--- a/packages/vorbis_bitpack/src/lib.rs
+++ b/packages/vorbis_bitpack/src/lib.rs
@@ -503,22 +503,31 @@ fn float32_pack(float: f64) -> u32 {
 	// Copy the sign bit
 	let sign_component = ((float.to_bits() & 0x8000_0000_0000_0000) >> 32) as u32;
 
-	// Adjust the exponent, with saturating arithmetic to preserve the scale as much as possible.
+	let exponent = ((float.to_bits() & 0x7FF0_0000_0000_0000) >> 52) as u32;
+
+	// Get the 53-bit mantissa. Add the implicit 1 bit, required by IEEE-754 for normal floats.
+	// Numbers that are not normal do not have it; the only one we care about is zero
+	let mantissa =
+		(float.to_bits() & 0x000F_FFFF_FFFF_FFFF) | if exponent > 0 { 1 << 52 } else { 0 };
+
+	// Keep the 21 most significant bits of the mantissa, rounding to the nearest value. Vorbis
+	// floats do not have to be normalized, so numbers that are too small for the lowest exponent
+	// are represented with that exponent and a mantissa with leading zeros.
 	// Subtract 235 to account for the different bias (1023 - 788 = 235).
 	// Subtract 20 to account for the different initial point position:
-	// - IEEE-754 double: 1.xxxx_xxxx_xxxx_xxxx_xxxx|t...t, where t are the truncated mantissa bits,
-	//   which are ignored => the initial point position is 20.
+	// - IEEE-754 double: 1.xxxx_xxxx_xxxx_xxxx_xxxx|t...t, where t are the mantissa bits that do
+	//   not fit => the initial point position is 20.
 	// - Vorbis float:    xxxx_xxxx_xxxx_xxxx_xxxx_x. => the initial point position is 0
-	let exponent = ((float.to_bits() & 0x7FF0_0000_0000_0000) >> 52) as u32;
-	let adjusted_exponent = cmp::min(
-		exponent.saturating_sub(235 + 20),
-		VORBIS_FLOAT32_MAX_EXPONENT
-	);
-	let exponent_component = adjusted_exponent << 21;
-
-	// Copy the mantissa, ignoring any least significant digits we cannot store.
-	// Add the implicit 1 bit, required by IEEE-754 for normal floats
-	let mantissa_component = ((float.to_bits() & 0x000F_FFFF_0000_0000) >> 32) as u32 | 0x10_00_00;
+	let dropped_bits = cmp::min(32 + (235 + 20u32).saturating_sub(exponent), 63);
+	let mut mantissa_component = ((mantissa + (1 << (dropped_bits - 1))) >> dropped_bits) as u32;
+	let mut adjusted_exponent = exponent.saturating_sub(235 + 20);
+	if mantissa_component > 0x1F_FFFF {
+		mantissa_component >>= 1;
+		adjusted_exponent += 1;
+	}
+
+	// Saturate the exponent, to preserve the scale as much as possible
+	let exponent_component = cmp::min(adjusted_exponent, VORBIS_FLOAT32_MAX_EXPONENT) << 21;
 
 	sign_component | exponent_component | mantissa_component
 }
-- 
2.43.0


From 021b0f82540752b140ad55056653a0cbc05dce73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:33 +0000
Subject: [PATCH 05/12] fix: compute exact lookup1_values results for big
 codebooks

---
 .../src/vorbis/optimizer/setup_header_parse.rs   | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/packages/optivorbis/src/vorbis/optimizer/setup_header_parse.rs b/packages/optivorbis/src/vorbis/optimizer/setup_header_parse.rs
index 5f2d60c..547a8c0 100644
--- a/packages/optivorbis/src/vorbis/optimizer/setup_header_parse.rs
+++ b/packages/optivorbis/src/vorbis/optimizer/setup_header_parse.rs
@@ -911,7 +911,21 @@ fn lookup1_values(codebook_entries: u32, codebook_dimensions: u16) -> u32 {
 	if codebook_dimensions == 0 {
 		u32::MAX
 	} else {
-		(codebook_entries as f32).powf(1.0 / codebook_dimensions as f32) as u32
+		// The floating point result may be off by one, so use it only as an estimation
+		let power_fits = |base: u32| {
+			base.checked_pow(codebook_dimensions as u32)
+				.is_some_and(|power| power <= codebook_entries)
+		};
+		let mut value = (codebook_entries as f32).powf(1.0 / codebook_dimensions as f32) as u32;
+
+		while value > 0 && !power_fits(value) {
+			value -= 1;
+		}
+		while power_fits(value + 1) {
+			value += 1;
+		}
+
+		value
 	}
 }
 
-- 
2.43.0


From d45dbeb870252c453ce700562b3893c3967ec838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:33 +0000
Subject: [PATCH 06/12] fix: do not swap the types reported by unexpected
 packet type errors

---
 packages/optivorbis/src/vorbis/optimizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/optivorbis/src/vorbis/optimizer.rs b/packages/optivorbis/src/vorbis/optimizer.rs
index 2bf7fd7..4f0ce5d 100644
--- a/packages/optivorbis/src/vorbis/optimizer.rs
+++ b/packages/optivorbis/src/vorbis/optimizer.rs
@@ -110,7 +110,7 @@ pub enum VorbisOptimizerError {
 	#[error("Invalid Vorbis I packet type: {0}")]
 	InvalidPacketType(#[from] TryPacketTypeFromInt),
 	/// A Vorbis packet was not of the expected type within a context.
-	#[error("Unexpected Vorbis I packet type: got {expected_type}, expected {actual_type}")]
+	#[error("Unexpected Vorbis I packet type: got {actual_type}, expected {expected_type}")]
 	UnexpectedPacketType {
 		/// The expected packet type.
 		expected_type: PacketType,
-- 
2.43.0


From 88077dfa8bd8df9773da94ab0e846be07cc4aac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:18 +0000
Subject: [PATCH 07/12] fix: limit optimal codeword lengths to the 32 bits the
 format allows

---
 .../codebook/huffman_codeword_lengths.rs      | 49 ++++++++++++++++++-
 1 file changed, 47 insertions(+), 2 deletions(-)

diff --git a/packages/optivorbis/src/vorbis/codebook/huffman_codeword_lengths.rs b/packages/optivorbis/src/vorbis/codebook/huffman_codeword_lengths.rs
index 4752eab..ea1f759 100644
--- a/packages/optivorbis/src/vorbis/codebook/huffman_codeword_lengths.rs
+++ b/packages/optivorbis/src/vorbis/codebook/huffman_codeword_lengths.rs
@@ -6,7 +6,10 @@
 //! [A. Moffat, ‘Huffman Coding’, ACM Comput. Surv., volume 52, issue 4, August 2019]:
 //! https://dl.acm.org/doi/10.1145/3342555
 
-use std::ops::{Index, IndexMut};
+use std::{
+	cmp,
+	ops::{Index, IndexMut}
+};
 
 /// Decorates a slice of codebook number frequencies to be suitable for computing codeword
 /// lengths.
@@ -79,7 +82,49 @@ impl<T: AsMut<[u64]> + AsRef<[u64]>> VorbisCodebookNumberFrequenciesDecorator<T>
 			}
 			used_codeword_count => {
 				// Our general algorithm can handle the rest of possible used entry counts
-				compute_huffman_codeword_lengths(self, used_codeword_count).number_frequencies
+				let mut decorator = compute_huffman_codeword_lengths(self, used_codeword_count);
+				decorator.limit_huffman_codeword_lengths(used_codeword_count);
+				decorator.number_frequencies
+			}
+		}
+	}
+
+	/// Makes sure that no codeword length exceeds the maximum that is possible to represent
+	/// in a Vorbis stream, in exchange for lengthening the least frequent codewords that do
+	/// not exceed it. The resulting prefix code is still complete.
+	fn limit_huffman_codeword_lengths(&mut self, used_codeword_count: usize) {
+		const MAX_LENGTH: usize = 32;
+
+		// Codeword lengths are sorted in increasing order at this point
+		if self[used_codeword_count - 1] <= MAX_LENGTH as u64 {
+			return;
+		}
+
+		let mut codewords_of_length = [0u64; MAX_LENGTH + 1];
+		for i in 0..used_codeword_count {
+			codewords_of_length[cmp::min(self[i] as usize, MAX_LENGTH)] += 1;
+		}
+
+		// The codewords we've just shortened take more room than available. To make room for
+		// each of them, hang it next to a shorter codeword
+		let mut used_room = (1..=MAX_LENGTH)
+			.map(|length| codewords_of_length[length] << (MAX_LENGTH - length))
+			.sum::<u64>();
+		while used_room > 1 << MAX_LENGTH {
+			let shorter_length = (1..MAX_LENGTH)
+				.rfind(|length| codewords_of_length[*length] > 0)
+				.expect("There are less than 2^32 codewords");
+			codewords_of_length[shorter_length] -= 1;
+			codewords_of_length[shorter_length + 1] += 2;
+			codewords_of_length[MAX_LENGTH] -= 1;
+			used_room -= 1;
+		}
+
+		let mut i = 0;
+		for (length, count) in codewords_of_length.into_iter().enumerate() {
+			for _ in 0..count {
+				self[i] = length as u64;
+				i += 1;
 			}
 		}
 	}
-- 
2.43.0


From 43e59735f628ea467158a599522ea1c8cb0e56c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:52 +0000
Subject: [PATCH 08/12] fix: report errors when writing the last buffered data
 to the output file

---
 packages/optivorbis_cli/src/bin/optivorbis.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/packages/optivorbis_cli/src/bin/optivorbis.rs b/packages/optivorbis_cli/src/bin/optivorbis.rs
index a0b77a9..593854c 100644
--- a/packages/optivorbis_cli/src/bin/optivorbis.rs
+++ b/packages/optivorbis_cli/src/bin/optivorbis.rs
@@ -252,11 +252,16 @@ fn remux<F: Read + Seek>(
 
 			let remux_begin = Instant::now();
 			OggToOgg::new(remuxer_settings, optimizer_settings)
-				.remux(input_file, output_file)
+				.remux(input_file, &mut *output_file)
 				.map(|_| remux_begin.elapsed())
 		}
 	} {
 		Ok(duration) => {
+			// Writers ignore errors when flushing their last buffered data on drop
+			output_file
+				.flush()
+				.map_err(|err| format!("Could not write to output file: {err}"))?;
+
 			info!(
 				"Optimization and repairs completed in {:.3} s. Have a nice day!",
 				duration.as_secs_f64()
-- 
2.43.0


From 3e3d953897e1e512c7515edd33a2e9c0bf33f8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:52 +0000
Subject: [PATCH 09/12] fix: do not mix the program header with the data output
 to stdout

---
 packages/optivorbis_cli/src/bin/optivorbis.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/optivorbis_cli/src/bin/optivorbis.rs b/packages/optivorbis_cli/src/bin/optivorbis.rs
index 593854c..85de56c 100644
--- a/packages/optivorbis_cli/src/bin/optivorbis.rs
+++ b/packages/optivorbis_cli/src/bin/optivorbis.rs
@@ -126,7 +126,8 @@ fn run() -> Result<(), Cow<'static, str>> {
 			} else {
 				let quiet_mode = matches.opt_present("q");
 
-				if !quiet_mode {
+				// The header would corrupt the output data if that is written to stdout too
+				if !quiet_mode && matches.free.get(1).is_none_or(|file_name| file_name != "-") {
 					print_header();
 					println!();
 				}
-- 
2.43.0


From 9a15d9303270e30fa69cda9bfdedc9ff2094037e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:04 +0000
Subject: [PATCH 10/12] fix: keep the end of the first audio page of streams
 with a start sample offset

---
 .../optivorbis/src/remuxer/ogg_to_ogg/mod.rs  | 38 +++++++++++++------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/packages/optivorbis/src/remuxer/ogg_to_ogg/mod.rs b/packages/optivorbis/src/remuxer/ogg_to_ogg/mod.rs
index 05f4fed..ff24307 100644
--- a/packages/optivorbis/src/remuxer/ogg_to_ogg/mod.rs
+++ b/packages/optivorbis/src/remuxer/ogg_to_ogg/mod.rs
@@ -446,30 +446,46 @@ fn second_pass<R: Read + Seek, W: Write, M: OggVorbisStreamMangler>(
 			// says, using the packet count we computed during the first pass
 			let is_last_stream_packet = packet_number == stream_state.analyzed_packet_count - 1;
 
+			let calculated_granule_position = granule_position_for_packet(
+				packet_sample_block_size,
+				packet_number,
+				packet_page_granule_position,
+				is_last_stream_packet,
+				remuxer_settings,
+				stream_state
+			);
+
+			let ends_first_audio_page_with_start_sample_offset = !remuxer_settings
+				.ignore_start_sample_offset
+				&& stream_state
+					.start_granule_position_offset
+					.is_some_and(|offset| offset != 0)
+				&& stream_state
+					.original_last_audio_packet_in_first_audio_page_granule_position
+					.is_some_and(|(_, final_packet_number)| final_packet_number == packet_number);
+
 			// Vorbis stream encapsulation in Ogg is documented in the Vorbis I specification,
 			// § A.2. Putting Vorbis packets in Ogg pages is pretty straightforward: the
 			// identification and setup headers must end the page they are in, but the rest
 			// of packets may be stuffed in pages as desired, according to the ease of seeking,
 			// container overhead and maximum livestream recapture time requirements. In our
 			// case, we only care about minimizing container overhead (we are dealing with
-			// seekable sources in any case), so just put as many packets per page as possible
+			// seekable sources in any case), so just put as many packets per page as possible.
+			// However, decoders infer a start sample offset from the granule position of the
+			// first audio page unless it is also the last one, whose granule position truncates
+			// the end of the stream instead. So keep the end of the original first audio page
+			// if there is such an offset
 			let page_end_info = if is_last_stream_packet {
 				PacketWriteEndInfo::EndStream
-			} else if packet_number == 0 || packet_number == 2 {
+			} else if packet_number == 0
+				|| packet_number == 2
+				|| ends_first_audio_page_with_start_sample_offset
+			{
 				PacketWriteEndInfo::EndPage
 			} else {
 				PacketWriteEndInfo::NormalPacket
 			};
 
-			let calculated_granule_position = granule_position_for_packet(
-				packet_sample_block_size,
-				packet_number,
-				packet_page_granule_position,
-				is_last_stream_packet,
-				remuxer_settings,
-				stream_state
-			);
-
 			// Letting the stream serial addition to overflow is the most sensible thing:
 			// the Ogg specification just requires serials to be unique per stream, so by
 			// wrapping we make a good use of the available bit space
-- 
2.43.0


From 68d7b313ffa579fcda8117935c00eb08bc8a1b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:31 +0000
Subject: [PATCH 11/12] fix: reject Vorbis streams that go on after another one
 began

---
 packages/optivorbis/src/remuxer/ogg_to_ogg/mod.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/packages/optivorbis/src/remuxer/ogg_to_ogg/mod.rs b/packages/optivorbis/src/remuxer/ogg_to_ogg/mod.rs
index ff24307..f3447d7 100644
--- a/packages/optivorbis/src/remuxer/ogg_to_ogg/mod.rs
+++ b/packages/optivorbis/src/remuxer/ogg_to_ogg/mod.rs
@@ -283,6 +283,7 @@ fn first_pass<'settings, R: Read + Seek, M: OggVorbisStreamMangler>(
 	while let Some(packet) = packet_reader.read_packet()? {
 		let stream_serial = packet.stream_serial();
 		let page_checksum = packet.checksum_page();
+		let vorbis_stream_count = vorbis_streams.len();
 
 		if packet.first_in_stream() {
 			match VorbisOptimizer::new(optimizer_settings, packet.data) {
@@ -348,9 +349,17 @@ fn first_pass<'settings, R: Read + Seek, M: OggVorbisStreamMangler>(
 					return Err(error.into());
 				}
 			}
-		} else if let Some(stream_state) = vorbis_streams.get_mut(&stream_serial) {
+		} else if let Some((stream_index, _, stream_state)) =
+			vorbis_streams.get_full_mut(&stream_serial)
+		{
 			// The second and next Vorbis packets of a Vorbis logical bitstream
 
+			// A previous Vorbis bitstream continues, in spite of having set the EOS flag, after
+			// another one started. They are concurrently multiplexed too
+			if stream_index + 1 != vorbis_stream_count {
+				return Err(RemuxError::UnsupportedStreamMultiplexing);
+			}
+
 			// last_in_stream() may return false for the last packet of a bitstream
 			// if its page does not set the EOS flag, but that's not a concern if
 			// no other packets follow. If they do, and are not for this stream,
-- 
2.43.0


From fc0c11074cedb30fcde6f7694bb19f4c7bdce08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:31 +0000
Subject: [PATCH 12/12] fix: building the trees of codebooks with many entries
 took quadratic time

A few bytes of an ordered codebook are enough to describe 2^24 entries, and the
search for the leftmost free leaf walked over every entry already in the tree,
so such a setup header kept the optimizer busy for days. Remember which nodes
are full, and do not walk over them.
---
 .../src/vorbis/codebook/huffman_tree.rs       | 92 +++++++++++--------
 1 file changed, 56 insertions(+), 36 deletions(-)

diff --git a/packages/optivorbis/src/vorbis/codebook/huffman_tree.rs b/packages/optivorbis/src/vorbis/codebook/huffman_tree.rs
index 8b61888..beaeddf 100644
--- a/packages/optivorbis/src/vorbis/codebook/huffman_tree.rs
+++ b/packages/optivorbis/src/vorbis/codebook/huffman_tree.rs
@@ -79,7 +79,8 @@ impl VorbisHuffmanTree {
 						entry: Some(VorbisHuffmanTreeEntry { number: 0 }),
 						..Default::default()
 					})),
-					entry: None
+					entry: None,
+					full: true
 				}
 			}
 			.build());
@@ -97,13 +98,14 @@ impl VorbisHuffmanTree {
 						continue;
 					}
 
-					let (entry, _) = root
-						.leftmost_free_leaf_at_depth(codeword_length, arena)
-						.ok_or(TryFromCodewordLengthsListError::OverspecifiedTree)?;
-
-					entry.entry = Some(VorbisHuffmanTreeEntry {
-						number: entry_number as u32
-					});
+					root.fill_leftmost_free_leaf_at_depth(
+						codeword_length,
+						VorbisHuffmanTreeEntry {
+							number: entry_number as u32
+						},
+						arena
+					)
+					.ok_or(TryFromCodewordLengthsListError::OverspecifiedTree)?;
 				}
 
 				Ok(root)
@@ -136,14 +138,16 @@ impl VorbisHuffmanTree {
 				continue;
 			}
 
-			let (entry, codeword) = root
-				.leftmost_free_leaf_at_depth(codeword_length, &arena)
+			let codeword = root
+				.fill_leftmost_free_leaf_at_depth(
+					codeword_length,
+					VorbisHuffmanTreeEntry {
+						number: entry_number as u32
+					},
+					&arena
+				)
 				.ok_or(TryFromCodewordLengthsListError::OverspecifiedTree)?;
 
-			entry.entry = Some(VorbisHuffmanTreeEntry {
-				number: entry_number as u32
-			});
-
 			codewords[entry_number] = Some((codeword, codeword_length));
 		}
 
@@ -203,23 +207,26 @@ impl<V> VorbisHuffmanTreeWalker<'_, '_, V> {
 struct VorbisHuffmanTreeNode<'tree, V> {
 	left_child: Option<&'tree mut VorbisHuffmanTreeNode<'tree, V>>,
 	right_child: Option<&'tree mut VorbisHuffmanTreeNode<'tree, V>>,
-	entry: Option<V>
+	entry: Option<V>,
+	/// Whether no more entries can be added at or beneath this node.
+	full: bool
 }
 
 impl<'tree, V> VorbisHuffmanTreeNode<'tree, V> {
-	/// Finds the leftmost free leaf in this tree at a certain depth,
-	/// returning the would-be codeword for it and allocating any new
-	/// nodes in the specified arena.
+	/// Finds the leftmost free leaf in this tree at a certain depth and
+	/// puts the entry in it, returning the codeword for it and allocating
+	/// any new nodes in the specified arena.
 	///
 	/// # Preconditions
 	/// `depth` is less than or equal to 32.
-	fn leftmost_free_leaf_at_depth<'this>(
-		&'this mut self,
+	fn fill_leftmost_free_leaf_at_depth(
+		&mut self,
 		depth: u8,
+		entry: V,
 		arena: &'tree Bump
-	) -> Option<(&'this mut Self, u32)> {
-		self.leftmost_free_leaf_at_depth_internal(depth, 0, arena)
-			.map(|(leaf, codeword)| {
+	) -> Option<u32> {
+		self.fill_leftmost_free_leaf_at_depth_internal(depth, 0, &mut Some(entry), arena)
+			.map(|codeword| {
 				// The codeword returned by this method is meant to be interpreted in
 				// MSB -> LSB order, skipping the 32 - depth most significant bits, but
 				// codewords are read from and written to Vorbis streams in LSB -> MSB
@@ -230,25 +237,30 @@ impl<'tree, V> VorbisHuffmanTreeNode<'tree, V> {
 				// such a depth parameter because zero-length codewords are used to
 				// encode unused entries
 				let offset = u32::BITS - depth as u32;
-				(leaf, codeword.wrapping_shl(offset).reverse_bits())
+				codeword.wrapping_shl(offset).reverse_bits()
 			})
 	}
 
-	fn leftmost_free_leaf_at_depth_internal<'this>(
-		&'this mut self,
+	fn fill_leftmost_free_leaf_at_depth_internal(
+		&mut self,
 		depth: u8,
 		codeword_so_far: u32,
+		entry: &mut Option<V>,
 		arena: &'tree Bump
-	) -> Option<(&'this mut Self, u32)> {
-		// Base case 1: occupied nodes are not free and can't have free nodes beneath them
-		if self.entry.is_some() {
+	) -> Option<u32> {
+		// Base case 1: full nodes are not free and can't have free nodes beneath them.
+		// Not walking over them makes adding an entry take a time that depends on the
+		// maximum tree depth only, instead of the number of entries already in the tree
+		if self.full {
 			return None;
 		}
 
 		// Base case 2: this node is a leftmost free leaf candidate
 		if depth == 0 {
 			return if self.left_child.is_none() && self.right_child.is_none() {
-				Some((self, codeword_so_far))
+				self.entry = entry.take();
+				self.full = true;
+				Some(codeword_so_far)
 			} else {
 				None
 			};
@@ -256,18 +268,25 @@ impl<'tree, V> VorbisHuffmanTreeNode<'tree, V> {
 
 		// Recursive cases: expand and try finding a free leaf in the left child.
 		// If that does not yield a leaf, try the right child
-		self.left_child
-			.get_or_insert_with(|| arena.alloc(Self::default()))
-			.leftmost_free_leaf_at_depth_internal(depth - 1, codeword_so_far, arena)
+		let left_child = self
+			.left_child
+			.get_or_insert_with(|| arena.alloc(Self::default()));
+		let codeword = left_child
+			.fill_leftmost_free_leaf_at_depth_internal(depth - 1, codeword_so_far, entry, arena)
 			.or_else(|| {
 				self.right_child
 					.get_or_insert_with(|| arena.alloc(Self::default()))
-					.leftmost_free_leaf_at_depth_internal(
+					.fill_leftmost_free_leaf_at_depth_internal(
 						depth - 1,
 						codeword_so_far | (1 << (depth - 1)),
+						entry,
 						arena
 					)
-			})
+			});
+
+		self.full = left_child.full && self.right_child.as_ref().is_some_and(|child| child.full);
+
+		codeword
 	}
 }
 
@@ -276,7 +295,8 @@ impl<V> Default for VorbisHuffmanTreeNode<'_, V> {
 		Self {
 			left_child: None,
 			right_child: None,
-			entry: None
+			entry: None,
+			full: false
 		}
 	}
 }
-- 
2.43.0

