From 0cd7ec38ff544da66023523c5a286bb925422e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:55 +0000
Subject: [PATCH 1/3] fix: align the dangling pointer of unallocated AlignedVec
 storage

An empty AlignedVec held a pointer aligned to 1 only. Pushing an empty slice
copied zero elements to a misaligned pointer, and reading a zero-sized value
created a misaligned reference; both are undefined behaviour.
---
 ser_raw/src/storage/aligned_vec.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/ser_raw/src/storage/aligned_vec.rs b/ser_raw/src/storage/aligned_vec.rs
index b670ed2..e7828d6 100644
--- a/ser_raw/src/storage/aligned_vec.rs
+++ b/ser_raw/src/storage/aligned_vec.rs
@@ -104,7 +104,7 @@ impl<
 		let _ = Self::ASSERT_ALIGNMENTS_VALID;
 
 		Self {
-			ptr: NonNull::dangling(),
+			ptr: Self::dangling(),
 			capacity: 0,
 			pos: 0,
 		}
@@ -243,7 +243,7 @@ impl<
 			self.ptr = unsafe {
 				if new_cap == 0 {
 					self.dealloc();
-					NonNull::dangling()
+					Self::dangling()
 				} else {
 					self.realloc(new_cap)
 				}
@@ -305,6 +305,16 @@ impl<
 		self.capacity = new_cap;
 	}
 
+	/// Get dangling pointer for when storage has no allocation.
+	///
+	/// Pointer is aligned to `STORAGE_ALIGNMENT`, so is valid for zero-sized
+	/// reads and writes of any type which can be stored.
+	#[inline]
+	fn dangling() -> NonNull<u8> {
+		// `STORAGE_ALIGNMENT` cannot be 0, as checked by `ASSERT_ALIGNMENTS_VALID`
+		unsafe { NonNull::new_unchecked(STORAGE_ALIGNMENT as *mut u8) }
+	}
+
 	/// Allocate backing memory.
 	///
 	/// # Safety
-- 
2.43.0


From 0804565e5fc8d1388c3d1a47a3b1a642da5d8e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:55 +0000
Subject: [PATCH 2/3] fix: panic if size of slice passed to push_empty_slice
 overflows

In release builds the multiplication wrapped, so less space was left than
requested (and later writes to it overwrote other data).
---
 ser_raw/src/storage/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ser_raw/src/storage/mod.rs b/ser_raw/src/storage/mod.rs
index 07e9383..e01d6f7 100644
--- a/ser_raw/src/storage/mod.rs
+++ b/ser_raw/src/storage/mod.rs
@@ -353,7 +353,10 @@ pub trait Storage: Sized {
 	fn push_empty_slice<T>(&mut self, len: usize) -> usize {
 		self.align_for::<T>();
 
-		let size = mem::size_of::<T>() * len;
+		// `len` is not the length of an existing slice, so size in bytes can overflow
+		let size = mem::size_of::<T>()
+			.checked_mul(len)
+			.expect("Size of slice overflows");
 		self.reserve(size);
 		let pos = self.pos();
 		unsafe { self.set_pos(self.pos() + size) };
-- 
2.43.0


From be2d798c61e4411d050b95107e611e2acb9a7196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:55 +0000
Subject: [PATCH 3/3] fix: push_empty_slice violated set_pos requirement for
 small types

set_pos requires a position aligned to VALUE_ALIGNMENT, but was called before
aligning, so push_empty::<u8>() panicked in debug builds with default config.
---
 ser_raw/src/storage/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ser_raw/src/storage/mod.rs b/ser_raw/src/storage/mod.rs
index e01d6f7..53f1c2a 100644
--- a/ser_raw/src/storage/mod.rs
+++ b/ser_raw/src/storage/mod.rs
@@ -359,9 +359,12 @@ pub trait Storage: Sized {
 			.expect("Size of slice overflows");
 		self.reserve(size);
 		let pos = self.pos();
-		unsafe { self.set_pos(self.pos() + size) };
 
-		self.align_after::<T>();
+		// Leave position aligned to `VALUE_ALIGNMENT`, as `set_pos` requires.
+		// `reserve()` ensures sufficient capacity, and capacity being a multiple of
+		// `MAX_VALUE_ALIGNMENT` ensures rounding up cannot exceed it.
+		unsafe { self.set_pos(align_up_to(pos + size, Self::VALUE_ALIGNMENT)) };
+
 		pos
 	}
 
-- 
2.43.0

