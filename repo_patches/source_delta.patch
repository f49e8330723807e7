From 59a6fe1c9def18e165ea553cf388b737485ce6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:23 +0000
Subject: [PATCH 01/10] fix: v3 Grow exposed stale bytes when it reused spare
 capacity

---
 v3/_buffer.go           | 5 +++++
 v3/_minibuf.go          | 5 +++++
 v3/buffer.generated.go  | 5 +++++
 v3/minibuf.generated.go | 5 +++++
 4 files changed, 20 insertions(+)

diff --git a/v3/_buffer.go b/v3/_buffer.go
index 4878780..d9ebd62 100644
--- a/v3/_buffer.go
+++ b/v3/_buffer.go
@@ -587,6 +587,11 @@ func (b *Buffer) Grow(n int64) {
 	if n <= int64(cap(b.buf))-b.cap {
 
 		b.buf = b.buf[0 : b.cap+n]
+		for i := b.cap; i < b.cap+n; i++ {
+
+			b.buf[i] = 0
+
+		}
 		b.Refresh()
 		return
 
diff --git a/v3/_minibuf.go b/v3/_minibuf.go
index a5b4cc2..c699e19 100644
--- a/v3/_minibuf.go
+++ b/v3/_minibuf.go
@@ -461,6 +461,11 @@ func (b *MiniBuffer) Grow(n int64) {
 	if n <= int64(cap(b.buf))-b.cap {
 
 		b.buf = b.buf[0 : b.cap+n]
+		for i := b.cap; i < b.cap+n; i++ {
+
+			b.buf[i] = 0
+
+		}
 		b.Refresh()
 		return
 
diff --git a/v3/buffer.generated.go b/v3/buffer.generated.go
index 9a08306..faa0351 100644
--- a/v3/buffer.generated.go
+++ b/v3/buffer.generated.go
@@ -1587,6 +1587,11 @@ func (b *Buffer) Grow(n int64) {
 	if n <= int64(cap(b.buf))-b.cap {
 
 		b.buf = b.buf[0 : b.cap+n]
+		for i := b.cap; i < b.cap+n; i++ {
+
+			b.buf[i] = 0
+
+		}
 		b.Refresh()
 		return
 
diff --git a/v3/minibuf.generated.go b/v3/minibuf.generated.go
index 1f87c45..c4bb458 100644
--- a/v3/minibuf.generated.go
+++ b/v3/minibuf.generated.go
@@ -1221,6 +1221,11 @@ func (b *MiniBuffer) Grow(n int64) {
 	if n <= int64(cap(b.buf))-b.cap {
 
 		b.buf = b.buf[0 : b.cap+n]
+		for i := b.cap; i < b.cap+n; i++ {
+
+			b.buf[i] = 0
+
+		}
 		b.Refresh()
 		return
 
-- 
2.43.0


From ee056863bc6d8d02f3c7458da895aeb267009d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:26 +0000
Subject: [PATCH 02/10] fix: v2 and v3 ReadBits and SetBits touched a bit when
 asked for zero

---
 v2/buffer.go            | 12 ++++++++++++
 v2/minibuf.go           | 12 ++++++++++++
 v3/_buffer.go           | 12 ++++++++++++
 v3/_minibuf.go          | 12 ++++++++++++
 v3/buffer.generated.go  | 12 ++++++++++++
 v3/minibuf.generated.go | 12 ++++++++++++
 6 files changed, 72 insertions(+)

diff --git a/v2/buffer.go b/v2/buffer.go
index b248125..cc49136 100644
--- a/v2/buffer.go
+++ b/v2/buffer.go
@@ -84,6 +84,12 @@ func (b *Buffer) readbit(off int64) byte {
 // readbits reads n bits from the bitfield at the specified offset
 func (b *Buffer) readbits(off, n int64) (out uint64) {
 
+	if n <= 0 {
+
+		return
+
+	}
+
 	i := int64(0)
 
 	{
@@ -137,6 +143,12 @@ func (b *Buffer) setbit(off int64, data byte) {
 // setbits sets n bits in the bitfield to the specified value at the specified offset
 func (b *Buffer) setbits(off int64, data uint64, n int64) {
 
+	if n <= 0 {
+
+		return
+
+	}
+
 	i := int64(0)
 
 	{
diff --git a/v2/minibuf.go b/v2/minibuf.go
index f1fc45d..7fceddc 100644
--- a/v2/minibuf.go
+++ b/v2/minibuf.go
@@ -70,6 +70,12 @@ func (b *MiniBuffer) readbit(out *byte, off int64) {
 // readbits reads n bits from the bitfield at the specified offset
 func (b *MiniBuffer) readbits(out *uint64, off, n int64) {
 
+	if n <= 0 {
+
+		return
+
+	}
+
 	var (
 		bout byte
 
@@ -110,6 +116,12 @@ func (b *MiniBuffer) setbit(off int64, data byte) {
 // setbits sets n bits in the bitfield to the specified value at the specified offset
 func (b *MiniBuffer) setbits(off int64, data uint64, n int64) {
 
+	if n <= 0 {
+
+		return
+
+	}
+
 	i := int64(0)
 
 	{
diff --git a/v3/_buffer.go b/v3/_buffer.go
index d9ebd62..2872233 100644
--- a/v3/_buffer.go
+++ b/v3/_buffer.go
@@ -102,6 +102,12 @@ func (b *Buffer) ReadBitNext() (out byte) {
 // modifying the internal offset value
 func (b *Buffer) ReadBits(off, n int64) (out uint64) {
 
+	if n <= 0 {
+
+		return
+
+	}
+
 	i := int64(0)
 
 	{
@@ -191,6 +197,12 @@ func (b *Buffer) ClearBitNext() {
 // modifying the internal offset value
 func (b *Buffer) SetBits(off int64, data uint64, n int64) {
 
+	if n <= 0 {
+
+		return
+
+	}
+
 	i := int64(0)
 
 	{
diff --git a/v3/_minibuf.go b/v3/_minibuf.go
index c699e19..d42c8b2 100644
--- a/v3/_minibuf.go
+++ b/v3/_minibuf.go
@@ -87,6 +87,12 @@ func (b *MiniBuffer) ReadBitNext(out *byte) {
 // modifying the internal offset value in out
 func (b *MiniBuffer) ReadBits(out *uint64, off, n int64) {
 
+	if n <= 0 {
+
+		return
+
+	}
+
 	var (
 		bout byte
 
@@ -153,6 +159,12 @@ func (b *MiniBuffer) ClearBitNext() {
 // modifying the internal offset value
 func (b *MiniBuffer) SetBits(off int64, data uint64, n int64) {
 
+	if n <= 0 {
+
+		return
+
+	}
+
 	i := int64(0)
 
 	{
diff --git a/v3/buffer.generated.go b/v3/buffer.generated.go
index faa0351..a5df9d5 100644
--- a/v3/buffer.generated.go
+++ b/v3/buffer.generated.go
@@ -102,6 +102,12 @@ func (b *Buffer) ReadBitNext() (out byte) {
 // modifying the internal offset value
 func (b *Buffer) ReadBits(off, n int64) (out uint64) {
 
+	if n <= 0 {
+
+		return
+
+	}
+
 	i := int64(0)
 
 	{
@@ -191,6 +197,12 @@ func (b *Buffer) ClearBitNext() {
 // modifying the internal offset value
 func (b *Buffer) SetBits(off int64, data uint64, n int64) {
 
+	if n <= 0 {
+
+		return
+
+	}
+
 	i := int64(0)
 
 	{
diff --git a/v3/minibuf.generated.go b/v3/minibuf.generated.go
index c4bb458..d8ba375 100644
--- a/v3/minibuf.generated.go
+++ b/v3/minibuf.generated.go
@@ -87,6 +87,12 @@ func (b *MiniBuffer) ReadBitNext(out *byte) {
 // modifying the internal offset value in out
 func (b *MiniBuffer) ReadBits(out *uint64, off, n int64) {
 
+	if n <= 0 {
+
+		return
+
+	}
+
 	var (
 		bout byte
 
@@ -153,6 +159,12 @@ func (b *MiniBuffer) ClearBitNext() {
 // modifying the internal offset value
 func (b *MiniBuffer) SetBits(off int64, data uint64, n int64) {
 
+	if n <= 0 {
+
+		return
+
+	}
+
 	i := int64(0)
 
 	{
-- 
2.43.0


From c686edbfacf9aac95806cd2c41d86fb302c51f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:30 +0000
Subject: [PATCH 03/10] fix: v2 and v3 whole-buffer bit methods panicked on an
 empty buffer

---
 v2/buffer.go            | 15 +++++++++++++++
 v2/minibuf.go           | 15 +++++++++++++++
 v3/_buffer.go           | 15 +++++++++++++++
 v3/_minibuf.go          | 15 +++++++++++++++
 v3/buffer.generated.go  | 15 +++++++++++++++
 v3/minibuf.generated.go | 15 +++++++++++++++
 6 files changed, 90 insertions(+)

diff --git a/v2/buffer.go b/v2/buffer.go
index cc49136..0f227db 100644
--- a/v2/buffer.go
+++ b/v2/buffer.go
@@ -196,6 +196,11 @@ func (b *Buffer) clearallbits() {
 		i = int64(0)
 		n = int64(len(b.buf))
 	)
+	if n == 0 {
+
+		return
+
+	}
 	{
 	clear_loop:
 		b.buf[i] = 0
@@ -219,6 +224,11 @@ func (b *Buffer) setallbits() {
 		i = int64(0)
 		n = int64(len(b.buf))
 	)
+	if n == 0 {
+
+		return
+
+	}
 	{
 	set_loop:
 		b.buf[i] = 0xFF
@@ -242,6 +252,11 @@ func (b *Buffer) flipallbits() {
 		i = int64(0)
 		n = int64(len(b.buf))
 	)
+	if n == 0 {
+
+		return
+
+	}
 	{
 	flip_loop:
 		b.buf[i] = ^b.buf[i]
diff --git a/v2/minibuf.go b/v2/minibuf.go
index 7fceddc..a99afaf 100644
--- a/v2/minibuf.go
+++ b/v2/minibuf.go
@@ -151,6 +151,11 @@ func (b *MiniBuffer) clearallbits() {
 		i = int64(0)
 		n = int64(len(b.buf))
 	)
+	if n == 0 {
+
+		return
+
+	}
 	{
 	clear_loop:
 		b.buf[i] = 0
@@ -171,6 +176,11 @@ func (b *MiniBuffer) setallbits() {
 		i = int64(0)
 		n = int64(len(b.buf))
 	)
+	if n == 0 {
+
+		return
+
+	}
 	{
 	set_loop:
 		b.buf[i] = 0xFF
@@ -191,6 +201,11 @@ func (b *MiniBuffer) flipallbits() {
 		i = int64(0)
 		n = int64(len(b.buf))
 	)
+	if n == 0 {
+
+		return
+
+	}
 	{
 	flip_loop:
 		b.buf[i] = ^b.buf[i]
diff --git a/v3/_buffer.go b/v3/_buffer.go
index 2872233..ac20f25 100644
--- a/v3/_buffer.go
+++ b/v3/_buffer.go
@@ -271,6 +271,11 @@ func (b *Buffer) ClearAllBits() {
 		i = int64(0)
 		n = int64(len(b.buf))
 	)
+	if n == 0 {
+
+		return
+
+	}
 	{
 	clear_loop:
 		b.buf[i] = 0
@@ -291,6 +296,11 @@ func (b *Buffer) SetAllBits() {
 		i = int64(0)
 		n = int64(len(b.buf))
 	)
+	if n == 0 {
+
+		return
+
+	}
 	{
 	set_loop:
 		b.buf[i] = 0xFF
@@ -311,6 +321,11 @@ func (b *Buffer) FlipAllBits() {
 		i = int64(0)
 		n = int64(len(b.buf))
 	)
+	if n == 0 {
+
+		return
+
+	}
 	{
 	flip_loop:
 		b.buf[i] = ^b.buf[i]
diff --git a/v3/_minibuf.go b/v3/_minibuf.go
index d42c8b2..6d14870 100644
--- a/v3/_minibuf.go
+++ b/v3/_minibuf.go
@@ -221,6 +221,11 @@ func (b *MiniBuffer) ClearAllBits() {
 		i = int64(0)
 		n = int64(len(b.buf))
 	)
+	if n == 0 {
+
+		return
+
+	}
 	{
 	clear_loop:
 		b.buf[i] = 0
@@ -241,6 +246,11 @@ func (b *MiniBuffer) SetAllBits() {
 		i = int64(0)
 		n = int64(len(b.buf))
 	)
+	if n == 0 {
+
+		return
+
+	}
 	{
 	set_loop:
 		b.buf[i] = 0xFF
@@ -261,6 +271,11 @@ func (b *MiniBuffer) FlipAllBits() {
 		i = int64(0)
 		n = int64(len(b.buf))
 	)
+	if n == 0 {
+
+		return
+
+	}
 	{
 	flip_loop:
 		b.buf[i] = ^b.buf[i]
diff --git a/v3/buffer.generated.go b/v3/buffer.generated.go
index a5df9d5..62387db 100644
--- a/v3/buffer.generated.go
+++ b/v3/buffer.generated.go
@@ -271,6 +271,11 @@ func (b *Buffer) ClearAllBits() {
 		i = int64(0)
 		n = int64(len(b.buf))
 	)
+	if n == 0 {
+
+		return
+
+	}
 	{
 	clear_loop:
 		b.buf[i] = 0
@@ -291,6 +296,11 @@ func (b *Buffer) SetAllBits() {
 		i = int64(0)
 		n = int64(len(b.buf))
 	)
+	if n == 0 {
+
+		return
+
+	}
 	{
 	set_loop:
 		b.buf[i] = 0xFF
@@ -311,6 +321,11 @@ func (b *Buffer) FlipAllBits() {
 		i = int64(0)
 		n = int64(len(b.buf))
 	)
+	if n == 0 {
+
+		return
+
+	}
 	{
 	flip_loop:
 		b.buf[i] = ^b.buf[i]
diff --git a/v3/minibuf.generated.go b/v3/minibuf.generated.go
index d8ba375..1e6ee8c 100644
--- a/v3/minibuf.generated.go
+++ b/v3/minibuf.generated.go
@@ -221,6 +221,11 @@ func (b *MiniBuffer) ClearAllBits() {
 		i = int64(0)
 		n = int64(len(b.buf))
 	)
+	if n == 0 {
+
+		return
+
+	}
 	{
 	clear_loop:
 		b.buf[i] = 0
@@ -241,6 +246,11 @@ func (b *MiniBuffer) SetAllBits() {
 		i = int64(0)
 		n = int64(len(b.buf))
 	)
+	if n == 0 {
+
+		return
+
+	}
 	{
 	set_loop:
 		b.buf[i] = 0xFF
@@ -261,6 +271,11 @@ func (b *MiniBuffer) FlipAllBits() {
 		i = int64(0)
 		n = int64(len(b.buf))
 	)
+	if n == 0 {
+
+		return
+
+	}
 	{
 	flip_loop:
 		b.buf[i] = ^b.buf[i]
-- 
2.43.0


From 0a72ff2dc47f79020e34f11e5a7aab1616725e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:34 +0000
Subject: [PATCH 04/10] fix: reads and writes of zero elements panicked, some
 with the lock held

---
 generation/complex.go   |  6 +++
 v1/buffer.go            |  6 +++
 v1/minibuf.go           |  6 +++
 v2/buffer.go            | 78 +++++++++++++++++++++++++++++++++
 v2/minibuf.go           | 78 +++++++++++++++++++++++++++++++++
 v3/buffer.generated.go  | 96 +++++++++++++++++++++++++++++++++++++++++
 v3/minibuf.generated.go | 96 +++++++++++++++++++++++++++++++++++++++++
 7 files changed, 366 insertions(+)

diff --git a/generation/complex.go b/generation/complex.go
index c493a25..3d5352a 100644
--- a/generation/complex.go
+++ b/generation/complex.go
@@ -208,6 +208,9 @@ func GenerateComplex(oldFiles map[string][]byte) (files map[string][]byte, e err
 								jen.Index().Id(intType),
 								jen.Id("n"))
 					}
+					// the generated loops always run once, so there has to be something to read
+					body.If(jen.Id("n").Op("<=").Lit(0)).
+						Block(jen.Return())
 					body.Id("i").Op(":=").Id("int64").
 						Call(jen.Lit(0))
 
@@ -309,6 +312,9 @@ func GenerateComplex(oldFiles map[string][]byte) (files map[string][]byte, e err
 					// write generation code
 					body.Id("i").Op(":=").Lit(0)
 					body.Id("n").Op(":=").Len(jen.Id("data"))
+					// the generated loops always run once, so there has to be something to write
+					body.If(jen.Id("n").Op("==").Lit(0)).
+						Block(jen.Return())
 					body.BlockFunc(func(loop *jen.Group) {
 						loop.Id("write_loop:")
 						if arguments[4] == "BE" {
diff --git a/v1/buffer.go b/v1/buffer.go
index da17ecf..6bd430f 100644
--- a/v1/buffer.go
+++ b/v1/buffer.go
@@ -251,6 +251,12 @@ func (b *Buffer) write(off int64, data []byte) {
 
 	}
 
+	if len(data) == 0 {
+
+		return
+
+	}
+
 	b.Lock()
 
 	i := int64(0)
diff --git a/v1/minibuf.go b/v1/minibuf.go
index 959d9f7..7a14fec 100644
--- a/v1/minibuf.go
+++ b/v1/minibuf.go
@@ -185,6 +185,12 @@ func (b *MiniBuffer) afterbit(out *int64, off ...int64) {
 // write writes a slice of bytes to the buffer at the specified offset
 func (b *MiniBuffer) write(off int64, data []byte) {
 
+	if len(data) == 0 {
+
+		return
+
+	}
+
 	i := int64(0)
 	n := int64(len(data))
 
diff --git a/v2/buffer.go b/v2/buffer.go
index 0f227db..f716672 100644
--- a/v2/buffer.go
+++ b/v2/buffer.go
@@ -318,6 +318,12 @@ func (b *Buffer) write(off int64, data []byte) {
 
 	}
 
+	if len(data) == 0 {
+
+		return
+
+	}
+
 	b.Lock()
 
 	var (
@@ -354,6 +360,12 @@ func (b *Buffer) writeU16LE(off int64, data []uint16) {
 
 	}
 
+	if len(data) == 0 {
+
+		return
+
+	}
+
 	b.Lock()
 
 	var (
@@ -392,6 +404,12 @@ func (b *Buffer) writeU16BE(off int64, data []uint16) {
 
 	}
 
+	if len(data) == 0 {
+
+		return
+
+	}
+
 	b.Lock()
 
 	var (
@@ -430,6 +448,12 @@ func (b *Buffer) writeU32LE(off int64, data []uint32) {
 
 	}
 
+	if len(data) == 0 {
+
+		return
+
+	}
+
 	b.Lock()
 
 	var (
@@ -470,6 +494,12 @@ func (b *Buffer) writeU32BE(off int64, data []uint32) {
 
 	}
 
+	if len(data) == 0 {
+
+		return
+
+	}
+
 	b.Lock()
 
 	var (
@@ -510,6 +540,12 @@ func (b *Buffer) writeU64LE(off int64, data []uint64) {
 
 	}
 
+	if len(data) == 0 {
+
+		return
+
+	}
+
 	b.Lock()
 
 	var (
@@ -554,6 +590,12 @@ func (b *Buffer) writeU64BE(off int64, data []uint64) {
 
 	}
 
+	if len(data) == 0 {
+
+		return
+
+	}
+
 	b.Lock()
 
 	var (
@@ -622,6 +664,12 @@ func (b *Buffer) readU16LE(off, n int64) (out []uint16) {
 
 	out = make([]uint16, n)
 
+	if n == 0 {
+
+		return
+
+	}
+
 	b.Lock()
 	defer b.Unlock()
 
@@ -660,6 +708,12 @@ func (b *Buffer) readU16BE(off, n int64) (out []uint16) {
 
 	out = make([]uint16, n)
 
+	if n == 0 {
+
+		return
+
+	}
+
 	b.Lock()
 	defer b.Unlock()
 
@@ -698,6 +752,12 @@ func (b *Buffer) readU32LE(off, n int64) (out []uint32) {
 
 	out = make([]uint32, n)
 
+	if n == 0 {
+
+		return
+
+	}
+
 	b.Lock()
 	defer b.Unlock()
 
@@ -738,6 +798,12 @@ func (b *Buffer) readU32BE(off, n int64) (out []uint32) {
 
 	out = make([]uint32, n)
 
+	if n == 0 {
+
+		return
+
+	}
+
 	b.Lock()
 	defer b.Unlock()
 
@@ -778,6 +844,12 @@ func (b *Buffer) readU64LE(off, n int64) (out []uint64) {
 
 	out = make([]uint64, n)
 
+	if n == 0 {
+
+		return
+
+	}
+
 	b.Lock()
 	defer b.Unlock()
 
@@ -822,6 +894,12 @@ func (b *Buffer) readU64BE(off, n int64) (out []uint64) {
 
 	out = make([]uint64, n)
 
+	if n == 0 {
+
+		return
+
+	}
+
 	b.Lock()
 	defer b.Unlock()
 	i := int64(0)
diff --git a/v2/minibuf.go b/v2/minibuf.go
index a99afaf..60f7e31 100644
--- a/v2/minibuf.go
+++ b/v2/minibuf.go
@@ -253,6 +253,12 @@ func (b *MiniBuffer) afterbit(out *int64, off ...int64) {
 // write writes a slice of bytes to the buffer at the specified offset
 func (b *MiniBuffer) write(off int64, data []byte) {
 
+	if len(data) == 0 {
+
+		return
+
+	}
+
 	var (
 		i = int64(0)
 		n = int64(len(data))
@@ -273,6 +279,12 @@ func (b *MiniBuffer) write(off int64, data []byte) {
 // writeU16LE writes a slice of uint16s to the buffer at the specified offset in little-endian
 func (b *MiniBuffer) writeU16LE(off int64, data []uint16) {
 
+	if len(data) == 0 {
+
+		return
+
+	}
+
 	var (
 		i = 0
 		n = len(data)
@@ -295,6 +307,12 @@ func (b *MiniBuffer) writeU16LE(off int64, data []uint16) {
 // writeU16BE writes a slice of uint16s to the buffer at the specified offset in big-endian
 func (b *MiniBuffer) writeU16BE(off int64, data []uint16) {
 
+	if len(data) == 0 {
+
+		return
+
+	}
+
 	var (
 		i = 0
 		n = len(data)
@@ -317,6 +335,12 @@ func (b *MiniBuffer) writeU16BE(off int64, data []uint16) {
 // writeU32LE writes a slice of uint32s to the buffer at the specified offset in little-endian
 func (b *MiniBuffer) writeU32LE(off int64, data []uint32) {
 
+	if len(data) == 0 {
+
+		return
+
+	}
+
 	var (
 		i = 0
 		n = len(data)
@@ -341,6 +365,12 @@ func (b *MiniBuffer) writeU32LE(off int64, data []uint32) {
 // writeU32BE writes a slice of uint32s to the buffer at the specified offset in big-endian
 func (b *MiniBuffer) writeU32BE(off int64, data []uint32) {
 
+	if len(data) == 0 {
+
+		return
+
+	}
+
 	var (
 		i = 0
 		n = len(data)
@@ -365,6 +395,12 @@ func (b *MiniBuffer) writeU32BE(off int64, data []uint32) {
 // writeU64LE writes a slice of uint64s to the buffer at the specified offset in little-endian
 func (b *MiniBuffer) writeU64LE(off int64, data []uint64) {
 
+	if len(data) == 0 {
+
+		return
+
+	}
+
 	var (
 		i = 0
 		n = len(data)
@@ -393,6 +429,12 @@ func (b *MiniBuffer) writeU64LE(off int64, data []uint64) {
 // writeU64BE writes a slice of uint64s to the buffer at the specified offset in big-endian
 func (b *MiniBuffer) writeU64BE(off int64, data []uint64) {
 
+	if len(data) == 0 {
+
+		return
+
+	}
+
 	var (
 		i = 0
 		n = len(data)
@@ -428,6 +470,12 @@ func (b *MiniBuffer) read(out *[]byte, off, n int64) {
 // readU16LE reads a slice of uint16s from the buffer at the specified offset in little-endian
 func (b *MiniBuffer) readU16LE(out *[]uint16, off, n int64) {
 
+	if n <= 0 {
+
+		return
+
+	}
+
 	i := int64(0)
 	{
 	read_loop:
@@ -447,6 +495,12 @@ func (b *MiniBuffer) readU16LE(out *[]uint16, off, n int64) {
 // readU16BE reads a slice of uint16s from the buffer at the specified offset in big-endian
 func (b *MiniBuffer) readU16BE(out *[]uint16, off, n int64) {
 
+	if n <= 0 {
+
+		return
+
+	}
+
 	i := int64(0)
 	{
 	read_loop:
@@ -466,6 +520,12 @@ func (b *MiniBuffer) readU16BE(out *[]uint16, off, n int64) {
 // readU32LE reads a slice of uint32s from the buffer at the specified offset in little-endian
 func (b *MiniBuffer) readU32LE(out *[]uint32, off, n int64) {
 
+	if n <= 0 {
+
+		return
+
+	}
+
 	i := int64(0)
 	{
 	read_loop:
@@ -487,6 +547,12 @@ func (b *MiniBuffer) readU32LE(out *[]uint32, off, n int64) {
 // readU32BE reads a slice of uint32s from the buffer at the specified offset in big-endian
 func (b *MiniBuffer) readU32BE(out *[]uint32, off, n int64) {
 
+	if n <= 0 {
+
+		return
+
+	}
+
 	i := int64(0)
 	{
 	read_loop:
@@ -508,6 +574,12 @@ func (b *MiniBuffer) readU32BE(out *[]uint32, off, n int64) {
 // readU64LE reads a slice of uint64s from the buffer at the specified offset in little-endian
 func (b *MiniBuffer) readU64LE(out *[]uint64, off, n int64) {
 
+	if n <= 0 {
+
+		return
+
+	}
+
 	i := int64(0)
 	{
 	read_loop:
@@ -533,6 +605,12 @@ func (b *MiniBuffer) readU64LE(out *[]uint64, off, n int64) {
 // readU64BE reads a slice of uint64s from the buffer at the specified offset in big-endian
 func (b *MiniBuffer) readU64BE(out *[]uint64, off, n int64) {
 
+	if n <= 0 {
+
+		return
+
+	}
+
 	i := int64(0)
 	{
 	read_loop:
diff --git a/v3/buffer.generated.go b/v3/buffer.generated.go
index 62387db..ce68d08 100644
--- a/v3/buffer.generated.go
+++ b/v3/buffer.generated.go
@@ -436,6 +436,9 @@ func (b *Buffer) WriteU16LE(off int64, data []uint16) {
 	}
 	i := 0
 	n := len(data)
+	if n == 0 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*2)] = byte(data[i])
@@ -467,6 +470,9 @@ func (b *Buffer) WriteU16BE(off int64, data []uint16) {
 	}
 	i := 0
 	n := len(data)
+	if n == 0 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*2)] = byte(data[i] >> 8)
@@ -498,6 +504,9 @@ func (b *Buffer) WriteU32LE(off int64, data []uint32) {
 	}
 	i := 0
 	n := len(data)
+	if n == 0 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*4)] = byte(data[i])
@@ -531,6 +540,9 @@ func (b *Buffer) WriteU32BE(off int64, data []uint32) {
 	}
 	i := 0
 	n := len(data)
+	if n == 0 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*4)] = byte(data[i] >> 24)
@@ -564,6 +576,9 @@ func (b *Buffer) WriteU64LE(off int64, data []uint64) {
 	}
 	i := 0
 	n := len(data)
+	if n == 0 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*8)] = byte(data[i])
@@ -601,6 +616,9 @@ func (b *Buffer) WriteU64BE(off int64, data []uint64) {
 	}
 	i := 0
 	n := len(data)
+	if n == 0 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*8)] = byte(data[i] >> 56)
@@ -638,6 +656,9 @@ func (b *Buffer) WriteI16LE(off int64, data []int16) {
 	}
 	i := 0
 	n := len(data)
+	if n == 0 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*2)] = byte(data[i])
@@ -669,6 +690,9 @@ func (b *Buffer) WriteI16BE(off int64, data []int16) {
 	}
 	i := 0
 	n := len(data)
+	if n == 0 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*2)] = byte(data[i] >> 8)
@@ -700,6 +724,9 @@ func (b *Buffer) WriteI32LE(off int64, data []int32) {
 	}
 	i := 0
 	n := len(data)
+	if n == 0 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*4)] = byte(data[i])
@@ -733,6 +760,9 @@ func (b *Buffer) WriteI32BE(off int64, data []int32) {
 	}
 	i := 0
 	n := len(data)
+	if n == 0 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*4)] = byte(data[i] >> 24)
@@ -766,6 +796,9 @@ func (b *Buffer) WriteI64LE(off int64, data []int64) {
 	}
 	i := 0
 	n := len(data)
+	if n == 0 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*8)] = byte(data[i])
@@ -803,6 +836,9 @@ func (b *Buffer) WriteI64BE(off int64, data []int64) {
 	}
 	i := 0
 	n := len(data)
+	if n == 0 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*8)] = byte(data[i] >> 56)
@@ -840,6 +876,9 @@ func (b *Buffer) WriteF32LE(off int64, data []float32) {
 	}
 	i := 0
 	n := len(data)
+	if n == 0 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*4)] = byte(*(*uint32)(unsafe.Pointer(&data[i])))
@@ -873,6 +912,9 @@ func (b *Buffer) WriteF32BE(off int64, data []float32) {
 	}
 	i := 0
 	n := len(data)
+	if n == 0 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*4)] = byte(*(*uint32)(unsafe.Pointer(&data[i])) >> 24)
@@ -906,6 +948,9 @@ func (b *Buffer) WriteF64LE(off int64, data []float64) {
 	}
 	i := 0
 	n := len(data)
+	if n == 0 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*8)] = byte(*(*uint64)(unsafe.Pointer(&data[i])))
@@ -943,6 +988,9 @@ func (b *Buffer) WriteF64BE(off int64, data []float64) {
 	}
 	i := 0
 	n := len(data)
+	if n == 0 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*8)] = byte(*(*uint64)(unsafe.Pointer(&data[i])) >> 56)
@@ -1027,6 +1075,9 @@ func (b *Buffer) ReadU16LE(off, n int64) (out []uint16) {
 		panic(BufferUnderreadError)
 	}
 	out = make([]uint16, n)
+	if n <= 0 {
+		return
+	}
 	i := int64(0)
 	{
 	read_loop:
@@ -1059,6 +1110,9 @@ func (b *Buffer) ReadU16BE(off, n int64) (out []uint16) {
 		panic(BufferUnderreadError)
 	}
 	out = make([]uint16, n)
+	if n <= 0 {
+		return
+	}
 	i := int64(0)
 	{
 	read_loop:
@@ -1091,6 +1145,9 @@ func (b *Buffer) ReadU32LE(off, n int64) (out []uint32) {
 		panic(BufferUnderreadError)
 	}
 	out = make([]uint32, n)
+	if n <= 0 {
+		return
+	}
 	i := int64(0)
 	{
 	read_loop:
@@ -1123,6 +1180,9 @@ func (b *Buffer) ReadU32BE(off, n int64) (out []uint32) {
 		panic(BufferUnderreadError)
 	}
 	out = make([]uint32, n)
+	if n <= 0 {
+		return
+	}
 	i := int64(0)
 	{
 	read_loop:
@@ -1155,6 +1215,9 @@ func (b *Buffer) ReadU64LE(off, n int64) (out []uint64) {
 		panic(BufferUnderreadError)
 	}
 	out = make([]uint64, n)
+	if n <= 0 {
+		return
+	}
 	i := int64(0)
 	{
 	read_loop:
@@ -1187,6 +1250,9 @@ func (b *Buffer) ReadU64BE(off, n int64) (out []uint64) {
 		panic(BufferUnderreadError)
 	}
 	out = make([]uint64, n)
+	if n <= 0 {
+		return
+	}
 	i := int64(0)
 	{
 	read_loop:
@@ -1219,6 +1285,9 @@ func (b *Buffer) ReadI16LE(off, n int64) (out []int16) {
 		panic(BufferUnderreadError)
 	}
 	out = make([]int16, n)
+	if n <= 0 {
+		return
+	}
 	i := int64(0)
 	{
 	read_loop:
@@ -1251,6 +1320,9 @@ func (b *Buffer) ReadI16BE(off, n int64) (out []int16) {
 		panic(BufferUnderreadError)
 	}
 	out = make([]int16, n)
+	if n <= 0 {
+		return
+	}
 	i := int64(0)
 	{
 	read_loop:
@@ -1283,6 +1355,9 @@ func (b *Buffer) ReadI32LE(off, n int64) (out []int32) {
 		panic(BufferUnderreadError)
 	}
 	out = make([]int32, n)
+	if n <= 0 {
+		return
+	}
 	i := int64(0)
 	{
 	read_loop:
@@ -1315,6 +1390,9 @@ func (b *Buffer) ReadI32BE(off, n int64) (out []int32) {
 		panic(BufferUnderreadError)
 	}
 	out = make([]int32, n)
+	if n <= 0 {
+		return
+	}
 	i := int64(0)
 	{
 	read_loop:
@@ -1347,6 +1425,9 @@ func (b *Buffer) ReadI64LE(off, n int64) (out []int64) {
 		panic(BufferUnderreadError)
 	}
 	out = make([]int64, n)
+	if n <= 0 {
+		return
+	}
 	i := int64(0)
 	{
 	read_loop:
@@ -1379,6 +1460,9 @@ func (b *Buffer) ReadI64BE(off, n int64) (out []int64) {
 		panic(BufferUnderreadError)
 	}
 	out = make([]int64, n)
+	if n <= 0 {
+		return
+	}
 	i := int64(0)
 	{
 	read_loop:
@@ -1411,6 +1495,9 @@ func (b *Buffer) ReadF32LE(off, n int64) (out []float32) {
 		panic(BufferUnderreadError)
 	}
 	out = make([]float32, n)
+	if n <= 0 {
+		return
+	}
 	i := int64(0)
 	var u uint32
 	{
@@ -1445,6 +1532,9 @@ func (b *Buffer) ReadF32BE(off, n int64) (out []float32) {
 		panic(BufferUnderreadError)
 	}
 	out = make([]float32, n)
+	if n <= 0 {
+		return
+	}
 	i := int64(0)
 	var u uint32
 	{
@@ -1479,6 +1569,9 @@ func (b *Buffer) ReadF64LE(off, n int64) (out []float64) {
 		panic(BufferUnderreadError)
 	}
 	out = make([]float64, n)
+	if n <= 0 {
+		return
+	}
 	i := int64(0)
 	var u uint64
 	{
@@ -1513,6 +1606,9 @@ func (b *Buffer) ReadF64BE(off, n int64) (out []float64) {
 		panic(BufferUnderreadError)
 	}
 	out = make([]float64, n)
+	if n <= 0 {
+		return
+	}
 	i := int64(0)
 	var u uint64
 	{
diff --git a/v3/minibuf.generated.go b/v3/minibuf.generated.go
index 1e6ee8c..be2547c 100644
--- a/v3/minibuf.generated.go
+++ b/v3/minibuf.generated.go
@@ -352,6 +352,9 @@ func (b *MiniBuffer) WriteBytesNext(data []byte) {
 func (b *MiniBuffer) WriteU16LE(off int64, data []uint16) {
 	i := 0
 	n := len(data)
+	if n == 0 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*2)] = byte(data[i])
@@ -377,6 +380,9 @@ func (b *MiniBuffer) WriteU16LENext(data []uint16) {
 func (b *MiniBuffer) WriteU16BE(off int64, data []uint16) {
 	i := 0
 	n := len(data)
+	if n == 0 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*2)] = byte(data[i] >> 8)
@@ -402,6 +408,9 @@ func (b *MiniBuffer) WriteU16BENext(data []uint16) {
 func (b *MiniBuffer) WriteU32LE(off int64, data []uint32) {
 	i := 0
 	n := len(data)
+	if n == 0 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*4)] = byte(data[i])
@@ -429,6 +438,9 @@ func (b *MiniBuffer) WriteU32LENext(data []uint32) {
 func (b *MiniBuffer) WriteU32BE(off int64, data []uint32) {
 	i := 0
 	n := len(data)
+	if n == 0 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*4)] = byte(data[i] >> 24)
@@ -456,6 +468,9 @@ func (b *MiniBuffer) WriteU32BENext(data []uint32) {
 func (b *MiniBuffer) WriteU64LE(off int64, data []uint64) {
 	i := 0
 	n := len(data)
+	if n == 0 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*8)] = byte(data[i])
@@ -487,6 +502,9 @@ func (b *MiniBuffer) WriteU64LENext(data []uint64) {
 func (b *MiniBuffer) WriteU64BE(off int64, data []uint64) {
 	i := 0
 	n := len(data)
+	if n == 0 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*8)] = byte(data[i] >> 56)
@@ -518,6 +536,9 @@ func (b *MiniBuffer) WriteU64BENext(data []uint64) {
 func (b *MiniBuffer) WriteI16LE(off int64, data []int16) {
 	i := 0
 	n := len(data)
+	if n == 0 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*2)] = byte(data[i])
@@ -543,6 +564,9 @@ func (b *MiniBuffer) WriteI16LENext(data []int16) {
 func (b *MiniBuffer) WriteI16BE(off int64, data []int16) {
 	i := 0
 	n := len(data)
+	if n == 0 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*2)] = byte(data[i] >> 8)
@@ -568,6 +592,9 @@ func (b *MiniBuffer) WriteI16BENext(data []int16) {
 func (b *MiniBuffer) WriteI32LE(off int64, data []int32) {
 	i := 0
 	n := len(data)
+	if n == 0 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*4)] = byte(data[i])
@@ -595,6 +622,9 @@ func (b *MiniBuffer) WriteI32LENext(data []int32) {
 func (b *MiniBuffer) WriteI32BE(off int64, data []int32) {
 	i := 0
 	n := len(data)
+	if n == 0 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*4)] = byte(data[i] >> 24)
@@ -622,6 +652,9 @@ func (b *MiniBuffer) WriteI32BENext(data []int32) {
 func (b *MiniBuffer) WriteI64LE(off int64, data []int64) {
 	i := 0
 	n := len(data)
+	if n == 0 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*8)] = byte(data[i])
@@ -653,6 +686,9 @@ func (b *MiniBuffer) WriteI64LENext(data []int64) {
 func (b *MiniBuffer) WriteI64BE(off int64, data []int64) {
 	i := 0
 	n := len(data)
+	if n == 0 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*8)] = byte(data[i] >> 56)
@@ -684,6 +720,9 @@ func (b *MiniBuffer) WriteI64BENext(data []int64) {
 func (b *MiniBuffer) WriteF32LE(off int64, data []float32) {
 	i := 0
 	n := len(data)
+	if n == 0 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*4)] = byte(*(*uint32)(unsafe.Pointer(&data[i])))
@@ -711,6 +750,9 @@ func (b *MiniBuffer) WriteF32LENext(data []float32) {
 func (b *MiniBuffer) WriteF32BE(off int64, data []float32) {
 	i := 0
 	n := len(data)
+	if n == 0 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*4)] = byte(*(*uint32)(unsafe.Pointer(&data[i])) >> 24)
@@ -738,6 +780,9 @@ func (b *MiniBuffer) WriteF32BENext(data []float32) {
 func (b *MiniBuffer) WriteF64LE(off int64, data []float64) {
 	i := 0
 	n := len(data)
+	if n == 0 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*8)] = byte(*(*uint64)(unsafe.Pointer(&data[i])))
@@ -769,6 +814,9 @@ func (b *MiniBuffer) WriteF64LENext(data []float64) {
 func (b *MiniBuffer) WriteF64BE(off int64, data []float64) {
 	i := 0
 	n := len(data)
+	if n == 0 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*8)] = byte(*(*uint64)(unsafe.Pointer(&data[i])) >> 56)
@@ -815,6 +863,9 @@ func (b *MiniBuffer) ReadBytesNext(out *[]byte, n int64) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *MiniBuffer) ReadU16LE(out *[]uint16, off, n int64) {
+	if n <= 0 {
+		return
+	}
 	i := int64(0)
 	{
 	read_loop:
@@ -838,6 +889,9 @@ func (b *MiniBuffer) ReadU16LENext(out *[]uint16, n int64) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *MiniBuffer) ReadU16BE(out *[]uint16, off, n int64) {
+	if n <= 0 {
+		return
+	}
 	i := int64(0)
 	{
 	read_loop:
@@ -861,6 +915,9 @@ func (b *MiniBuffer) ReadU16BENext(out *[]uint16, n int64) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *MiniBuffer) ReadU32LE(out *[]uint32, off, n int64) {
+	if n <= 0 {
+		return
+	}
 	i := int64(0)
 	{
 	read_loop:
@@ -884,6 +941,9 @@ func (b *MiniBuffer) ReadU32LENext(out *[]uint32, n int64) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *MiniBuffer) ReadU32BE(out *[]uint32, off, n int64) {
+	if n <= 0 {
+		return
+	}
 	i := int64(0)
 	{
 	read_loop:
@@ -907,6 +967,9 @@ func (b *MiniBuffer) ReadU32BENext(out *[]uint32, n int64) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *MiniBuffer) ReadU64LE(out *[]uint64, off, n int64) {
+	if n <= 0 {
+		return
+	}
 	i := int64(0)
 	{
 	read_loop:
@@ -930,6 +993,9 @@ func (b *MiniBuffer) ReadU64LENext(out *[]uint64, n int64) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *MiniBuffer) ReadU64BE(out *[]uint64, off, n int64) {
+	if n <= 0 {
+		return
+	}
 	i := int64(0)
 	{
 	read_loop:
@@ -953,6 +1019,9 @@ func (b *MiniBuffer) ReadU64BENext(out *[]uint64, n int64) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *MiniBuffer) ReadI16LE(out *[]int16, off, n int64) {
+	if n <= 0 {
+		return
+	}
 	i := int64(0)
 	{
 	read_loop:
@@ -976,6 +1045,9 @@ func (b *MiniBuffer) ReadI16LENext(out *[]int16, n int64) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *MiniBuffer) ReadI16BE(out *[]int16, off, n int64) {
+	if n <= 0 {
+		return
+	}
 	i := int64(0)
 	{
 	read_loop:
@@ -999,6 +1071,9 @@ func (b *MiniBuffer) ReadI16BENext(out *[]int16, n int64) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *MiniBuffer) ReadI32LE(out *[]int32, off, n int64) {
+	if n <= 0 {
+		return
+	}
 	i := int64(0)
 	{
 	read_loop:
@@ -1022,6 +1097,9 @@ func (b *MiniBuffer) ReadI32LENext(out *[]int32, n int64) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *MiniBuffer) ReadI32BE(out *[]int32, off, n int64) {
+	if n <= 0 {
+		return
+	}
 	i := int64(0)
 	{
 	read_loop:
@@ -1045,6 +1123,9 @@ func (b *MiniBuffer) ReadI32BENext(out *[]int32, n int64) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *MiniBuffer) ReadI64LE(out *[]int64, off, n int64) {
+	if n <= 0 {
+		return
+	}
 	i := int64(0)
 	{
 	read_loop:
@@ -1068,6 +1149,9 @@ func (b *MiniBuffer) ReadI64LENext(out *[]int64, n int64) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *MiniBuffer) ReadI64BE(out *[]int64, off, n int64) {
+	if n <= 0 {
+		return
+	}
 	i := int64(0)
 	{
 	read_loop:
@@ -1091,6 +1175,9 @@ func (b *MiniBuffer) ReadI64BENext(out *[]int64, n int64) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *MiniBuffer) ReadF32LE(out *[]float32, off, n int64) {
+	if n <= 0 {
+		return
+	}
 	i := int64(0)
 	var u uint32
 	{
@@ -1116,6 +1203,9 @@ func (b *MiniBuffer) ReadF32LENext(out *[]float32, n int64) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *MiniBuffer) ReadF32BE(out *[]float32, off, n int64) {
+	if n <= 0 {
+		return
+	}
 	i := int64(0)
 	var u uint32
 	{
@@ -1141,6 +1231,9 @@ func (b *MiniBuffer) ReadF32BENext(out *[]float32, n int64) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *MiniBuffer) ReadF64LE(out *[]float64, off, n int64) {
+	if n <= 0 {
+		return
+	}
 	i := int64(0)
 	var u uint64
 	{
@@ -1166,6 +1259,9 @@ func (b *MiniBuffer) ReadF64LENext(out *[]float64, n int64) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *MiniBuffer) ReadF64BE(out *[]float64, off, n int64) {
+	if n <= 0 {
+		return
+	}
 	i := int64(0)
 	var u uint64
 	{
-- 
2.43.0


From c7e115e158b69a6cfdd6098c03905e9106b41c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:48 +0000
Subject: [PATCH 05/10] fix: MiniBuffer ReadBits mixed the old value of out
 into its result

---
 v1/minibuf.go           | 2 ++
 v2/minibuf.go           | 2 ++
 v3/_minibuf.go          | 2 ++
 v3/minibuf.generated.go | 2 ++
 4 files changed, 8 insertions(+)

diff --git a/v1/minibuf.go b/v1/minibuf.go
index 7a14fec..088cf9b 100644
--- a/v1/minibuf.go
+++ b/v1/minibuf.go
@@ -73,6 +73,8 @@ func (b *MiniBuffer) readbit(out *byte, off int64) {
 // readbits reads n bits from the bitfield at the specified offset
 func (b *MiniBuffer) readbits(out *uint64, off, n int64) {
 
+	*out = 0
+
 	var bout byte
 	for i := int64(0); i < n; i++ {
 
diff --git a/v2/minibuf.go b/v2/minibuf.go
index 60f7e31..3232b6e 100644
--- a/v2/minibuf.go
+++ b/v2/minibuf.go
@@ -70,6 +70,8 @@ func (b *MiniBuffer) readbit(out *byte, off int64) {
 // readbits reads n bits from the bitfield at the specified offset
 func (b *MiniBuffer) readbits(out *uint64, off, n int64) {
 
+	*out = 0
+
 	if n <= 0 {
 
 		return
diff --git a/v3/_minibuf.go b/v3/_minibuf.go
index 6d14870..07070fb 100644
--- a/v3/_minibuf.go
+++ b/v3/_minibuf.go
@@ -87,6 +87,8 @@ func (b *MiniBuffer) ReadBitNext(out *byte) {
 // modifying the internal offset value in out
 func (b *MiniBuffer) ReadBits(out *uint64, off, n int64) {
 
+	*out = 0
+
 	if n <= 0 {
 
 		return
diff --git a/v3/minibuf.generated.go b/v3/minibuf.generated.go
index be2547c..eca250e 100644
--- a/v3/minibuf.generated.go
+++ b/v3/minibuf.generated.go
@@ -87,6 +87,8 @@ func (b *MiniBuffer) ReadBitNext(out *byte) {
 // modifying the internal offset value in out
 func (b *MiniBuffer) ReadBits(out *uint64, off, n int64) {
 
+	*out = 0
+
 	if n <= 0 {
 
 		return
-- 
2.43.0


From 3f55478b207b1ae20ca5a8d3d8267add606bc239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:50 +0000
Subject: [PATCH 06/10] fix: v1 and v2 Grow with a negative count left the
 buffer locked

---
 v1/buffer.go | 6 ++++++
 v2/buffer.go | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/v1/buffer.go b/v1/buffer.go
index 6bd430f..a9c8d7f 100644
--- a/v1/buffer.go
+++ b/v1/buffer.go
@@ -450,6 +450,12 @@ func (b *Buffer) after(off ...int64) int64 {
 // grow grows the buffer by n bytes
 func (b *Buffer) grow(n int64) {
 
+	if n < 0 {
+
+		panic(BufferInvalidByteCountError)
+
+	}
+
 	b.Lock()
 
 	b.buf = append(b.buf, make([]byte, n)...)
diff --git a/v2/buffer.go b/v2/buffer.go
index f716672..81fd3d4 100644
--- a/v2/buffer.go
+++ b/v2/buffer.go
@@ -961,6 +961,12 @@ func (b *Buffer) after(off ...int64) int64 {
 // grow grows the buffer by n bytes
 func (b *Buffer) grow(n int64) {
 
+	if n < 0 {
+
+		panic(BufferInvalidByteCountError)
+
+	}
+
 	b.Lock()
 
 	b.buf = append(b.buf, make([]byte, n)...)
-- 
2.43.0


From 473f520a6d1b8b6bb1d70e446aa39e6136de1f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:54 +0000
Subject: [PATCH 07/10] fix: Buffer bounds checks overflowed on huge offsets
 and counts

---
 generation/complex.go  |  9 ++++--
 v1/buffer.go           |  4 +--
 v2/buffer.go           | 28 ++++++++---------
 v3/_buffer.go          |  4 +--
 v3/buffer.generated.go | 68 +++++++++++++++++++++---------------------
 5 files changed, 58 insertions(+), 55 deletions(-)

diff --git a/generation/complex.go b/generation/complex.go
index 3d5352a..d6c902a 100644
--- a/generation/complex.go
+++ b/generation/complex.go
@@ -187,13 +187,16 @@ func GenerateComplex(oldFiles map[string][]byte) (files map[string][]byte, e err
 			function.BlockFunc(func(body *jen.Group) {
 				if arguments[0] == "Buffer" {
 					if arguments[1] == "Read" {
-						body.If(jen.Parens(jen.Id("off").Op("+").Id("n").Op("*").Lit(intBytes)).Op(">").Id("b").Dot("cap")).
+						// written so that neither side of the comparison is able to overflow
+						body.If(jen.Id("n").Op(">").Id("b").Dot("cap").Op("/").Lit(intBytes).Op("||").
+							Id("off").Op(">").Id("b").Dot("cap").Op("-").Id("n").Op("*").Lit(intBytes)).
 							Block(jen.Panic(jen.Id("BufferOverreadError")))
 						body.If(jen.Id("off").Op("<").Lit(0x00)).
 							Block(jen.Panic(jen.Id("BufferUnderreadError")))
 					} else {
-						body.If(jen.Parens(jen.Id("off").Op("+").Id("int64").
-							Call(jen.Len(jen.Id("data"))).Op("*").Lit(intBytes)).Op(">").Id("b").Dot("cap")).
+						// written so that neither side of the comparison is able to overflow
+						body.If(jen.Id("off").Op(">").Id("b").Dot("cap").Op("-").Id("int64").
+							Call(jen.Len(jen.Id("data"))).Op("*").Lit(intBytes)).
 							Block(jen.Panic(jen.Id("BufferOverwriteError")))
 						body.If(jen.Id("off").Op("<").Lit(0x00)).
 							Block(jen.Panic(jen.Id("BufferUnderwriteError")))
diff --git a/v1/buffer.go b/v1/buffer.go
index a9c8d7f..51ec970 100644
--- a/v1/buffer.go
+++ b/v1/buffer.go
@@ -239,7 +239,7 @@ func (b *Buffer) afterbit(off ...int64) int64 {
 // write writes a slice of bytes to the buffer at the specified offset
 func (b *Buffer) write(off int64, data []byte) {
 
-	if (off + int64(len(data))) > b.cap {
+	if off > b.cap-int64(len(data)) {
 
 		panic(BufferOverwriteError)
 
@@ -349,7 +349,7 @@ func (b *Buffer) writeComplex(off int64, idata interface{}, size IntegerSize, en
 // read reads n bytes from the buffer at the specified offset
 func (b *Buffer) read(off, n int64) []byte {
 
-	if (off + n) > b.cap {
+	if n > b.cap || off > b.cap-n {
 
 		panic(BufferOverreadError)
 
diff --git a/v2/buffer.go b/v2/buffer.go
index 81fd3d4..a43ac65 100644
--- a/v2/buffer.go
+++ b/v2/buffer.go
@@ -306,7 +306,7 @@ func (b *Buffer) afterbit(off ...int64) int64 {
 // write writes a slice of bytes to the buffer at the specified offset
 func (b *Buffer) write(off int64, data []byte) {
 
-	if (off + int64(len(data))) > b.cap {
+	if off > b.cap-int64(len(data)) {
 
 		panic(BufferOverwriteError)
 
@@ -348,7 +348,7 @@ func (b *Buffer) write(off int64, data []byte) {
 // writeU16LE writes a slice of uint16s to the buffer at the specified offset in little-endian
 func (b *Buffer) writeU16LE(off int64, data []uint16) {
 
-	if (off + int64(len(data))*2) > b.cap {
+	if off > b.cap-int64(len(data))*2 {
 
 		panic(BufferOverwriteError)
 
@@ -392,7 +392,7 @@ func (b *Buffer) writeU16LE(off int64, data []uint16) {
 // writeU16BE writes a slice of uint16s to the buffer at the specified offset in big-endian
 func (b *Buffer) writeU16BE(off int64, data []uint16) {
 
-	if (off + int64(len(data))*2) > b.cap {
+	if off > b.cap-int64(len(data))*2 {
 
 		panic(BufferOverwriteError)
 
@@ -436,7 +436,7 @@ func (b *Buffer) writeU16BE(off int64, data []uint16) {
 // writeU32LE writes a slice of uint32s to the buffer at the specified offset in little-endian
 func (b *Buffer) writeU32LE(off int64, data []uint32) {
 
-	if (off + int64(len(data))*4) > b.cap {
+	if off > b.cap-int64(len(data))*4 {
 
 		panic(BufferOverwriteError)
 
@@ -482,7 +482,7 @@ func (b *Buffer) writeU32LE(off int64, data []uint32) {
 // writeU32BE writes a slice of uint32s to the buffer at the specified offset in big-endian
 func (b *Buffer) writeU32BE(off int64, data []uint32) {
 
-	if (off + int64(len(data))*4) > b.cap {
+	if off > b.cap-int64(len(data))*4 {
 
 		panic(BufferOverwriteError)
 
@@ -528,7 +528,7 @@ func (b *Buffer) writeU32BE(off int64, data []uint32) {
 // writeU64LE writes a slice of uint64s to the buffer at the specified offset in little-endian
 func (b *Buffer) writeU64LE(off int64, data []uint64) {
 
-	if (off + int64(len(data))*8) > b.cap {
+	if off > b.cap-int64(len(data))*8 {
 
 		panic(BufferOverwriteError)
 
@@ -578,7 +578,7 @@ func (b *Buffer) writeU64LE(off int64, data []uint64) {
 // writeU64BE writes a slice of uint64s to the buffer at the specified offset in big-endian
 func (b *Buffer) writeU64BE(off int64, data []uint64) {
 
-	if (off + int64(len(data))*8) > b.cap {
+	if off > b.cap-int64(len(data))*8 {
 
 		panic(BufferOverwriteError)
 
@@ -628,7 +628,7 @@ func (b *Buffer) writeU64BE(off int64, data []uint64) {
 // read reads n bytes from the buffer at the specified offset
 func (b *Buffer) read(off, n int64) []byte {
 
-	if (off + n) > b.cap {
+	if n > b.cap || off > b.cap-n {
 
 		panic(BufferOverreadError)
 
@@ -650,7 +650,7 @@ func (b *Buffer) read(off, n int64) []byte {
 // readU16LE reads a slice of uint16s from the buffer at the specified offset in little-endian
 func (b *Buffer) readU16LE(off, n int64) (out []uint16) {
 
-	if (off + n*2) > b.cap {
+	if n > b.cap/2 || off > b.cap-n*2 {
 
 		panic(BufferOverreadError)
 
@@ -694,7 +694,7 @@ func (b *Buffer) readU16LE(off, n int64) (out []uint16) {
 // readU16BE reads a slice of uint16s from the buffer at the specified offset in big-endian
 func (b *Buffer) readU16BE(off, n int64) (out []uint16) {
 
-	if (off + n*2) > b.cap {
+	if n > b.cap/2 || off > b.cap-n*2 {
 
 		panic(BufferOverreadError)
 
@@ -738,7 +738,7 @@ func (b *Buffer) readU16BE(off, n int64) (out []uint16) {
 // readU32LE reads a slice of uint32s from the buffer at the specified offset in little-endian
 func (b *Buffer) readU32LE(off, n int64) (out []uint32) {
 
-	if (off + n*4) > b.cap {
+	if n > b.cap/4 || off > b.cap-n*4 {
 
 		panic(BufferOverreadError)
 
@@ -784,7 +784,7 @@ func (b *Buffer) readU32LE(off, n int64) (out []uint32) {
 // readU32BE reads a slice of uint32s from the buffer at the specified offset in big-endian
 func (b *Buffer) readU32BE(off, n int64) (out []uint32) {
 
-	if (off + n*4) > b.cap {
+	if n > b.cap/4 || off > b.cap-n*4 {
 
 		panic(BufferOverreadError)
 
@@ -830,7 +830,7 @@ func (b *Buffer) readU32BE(off, n int64) (out []uint32) {
 // readU64LE reads a slice of uint64s from the buffer at the specified offset in little-endian
 func (b *Buffer) readU64LE(off, n int64) (out []uint64) {
 
-	if (off + n*8) > b.cap {
+	if n > b.cap/8 || off > b.cap-n*8 {
 
 		panic(BufferOverreadError)
 
@@ -880,7 +880,7 @@ func (b *Buffer) readU64LE(off, n int64) (out []uint64) {
 // readU64BE reads a slice of uint64s from the buffer at the specified offset in big-endian
 func (b *Buffer) readU64BE(off, n int64) (out []uint64) {
 
-	if (off + n*8) > b.cap {
+	if n > b.cap/8 || off > b.cap-n*8 {
 
 		panic(BufferOverreadError)
 
diff --git a/v3/_buffer.go b/v3/_buffer.go
index ac20f25..755ce85 100644
--- a/v3/_buffer.go
+++ b/v3/_buffer.go
@@ -382,7 +382,7 @@ func (b *Buffer) AlignBit() {
 // without modifying the internal offset value
 func (b *Buffer) WriteBytes(off int64, data []byte) {
 
-	if (off + int64(len(data))) > b.cap {
+	if off > b.cap-int64(len(data)) {
 
 		panic(BufferOverwriteError)
 
@@ -460,7 +460,7 @@ func (b *Buffer) WriteByteNext(data byte) {
 // without modifying the internal offset value
 func (b *Buffer) ReadBytes(off, n int64) []byte {
 
-	if (off + n) > b.cap {
+	if n > b.cap || off > b.cap-n {
 
 		panic(BufferOverreadError)
 
diff --git a/v3/buffer.generated.go b/v3/buffer.generated.go
index ce68d08..ed059ea 100644
--- a/v3/buffer.generated.go
+++ b/v3/buffer.generated.go
@@ -382,7 +382,7 @@ func (b *Buffer) AlignBit() {
 // without modifying the internal offset value
 func (b *Buffer) WriteBytes(off int64, data []byte) {
 
-	if (off + int64(len(data))) > b.cap {
+	if off > b.cap-int64(len(data)) {
 
 		panic(BufferOverwriteError)
 
@@ -428,7 +428,7 @@ func (b *Buffer) WriteByteNext(data byte) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *Buffer) WriteU16LE(off int64, data []uint16) {
-	if (off + int64(len(data))*2) > b.cap {
+	if off > b.cap-int64(len(data))*2 {
 		panic(BufferOverwriteError)
 	}
 	if off < 0 {
@@ -462,7 +462,7 @@ func (b *Buffer) WriteU16LENext(data []uint16) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *Buffer) WriteU16BE(off int64, data []uint16) {
-	if (off + int64(len(data))*2) > b.cap {
+	if off > b.cap-int64(len(data))*2 {
 		panic(BufferOverwriteError)
 	}
 	if off < 0 {
@@ -496,7 +496,7 @@ func (b *Buffer) WriteU16BENext(data []uint16) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *Buffer) WriteU32LE(off int64, data []uint32) {
-	if (off + int64(len(data))*4) > b.cap {
+	if off > b.cap-int64(len(data))*4 {
 		panic(BufferOverwriteError)
 	}
 	if off < 0 {
@@ -532,7 +532,7 @@ func (b *Buffer) WriteU32LENext(data []uint32) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *Buffer) WriteU32BE(off int64, data []uint32) {
-	if (off + int64(len(data))*4) > b.cap {
+	if off > b.cap-int64(len(data))*4 {
 		panic(BufferOverwriteError)
 	}
 	if off < 0 {
@@ -568,7 +568,7 @@ func (b *Buffer) WriteU32BENext(data []uint32) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *Buffer) WriteU64LE(off int64, data []uint64) {
-	if (off + int64(len(data))*8) > b.cap {
+	if off > b.cap-int64(len(data))*8 {
 		panic(BufferOverwriteError)
 	}
 	if off < 0 {
@@ -608,7 +608,7 @@ func (b *Buffer) WriteU64LENext(data []uint64) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *Buffer) WriteU64BE(off int64, data []uint64) {
-	if (off + int64(len(data))*8) > b.cap {
+	if off > b.cap-int64(len(data))*8 {
 		panic(BufferOverwriteError)
 	}
 	if off < 0 {
@@ -648,7 +648,7 @@ func (b *Buffer) WriteU64BENext(data []uint64) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *Buffer) WriteI16LE(off int64, data []int16) {
-	if (off + int64(len(data))*2) > b.cap {
+	if off > b.cap-int64(len(data))*2 {
 		panic(BufferOverwriteError)
 	}
 	if off < 0 {
@@ -682,7 +682,7 @@ func (b *Buffer) WriteI16LENext(data []int16) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *Buffer) WriteI16BE(off int64, data []int16) {
-	if (off + int64(len(data))*2) > b.cap {
+	if off > b.cap-int64(len(data))*2 {
 		panic(BufferOverwriteError)
 	}
 	if off < 0 {
@@ -716,7 +716,7 @@ func (b *Buffer) WriteI16BENext(data []int16) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *Buffer) WriteI32LE(off int64, data []int32) {
-	if (off + int64(len(data))*4) > b.cap {
+	if off > b.cap-int64(len(data))*4 {
 		panic(BufferOverwriteError)
 	}
 	if off < 0 {
@@ -752,7 +752,7 @@ func (b *Buffer) WriteI32LENext(data []int32) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *Buffer) WriteI32BE(off int64, data []int32) {
-	if (off + int64(len(data))*4) > b.cap {
+	if off > b.cap-int64(len(data))*4 {
 		panic(BufferOverwriteError)
 	}
 	if off < 0 {
@@ -788,7 +788,7 @@ func (b *Buffer) WriteI32BENext(data []int32) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *Buffer) WriteI64LE(off int64, data []int64) {
-	if (off + int64(len(data))*8) > b.cap {
+	if off > b.cap-int64(len(data))*8 {
 		panic(BufferOverwriteError)
 	}
 	if off < 0 {
@@ -828,7 +828,7 @@ func (b *Buffer) WriteI64LENext(data []int64) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *Buffer) WriteI64BE(off int64, data []int64) {
-	if (off + int64(len(data))*8) > b.cap {
+	if off > b.cap-int64(len(data))*8 {
 		panic(BufferOverwriteError)
 	}
 	if off < 0 {
@@ -868,7 +868,7 @@ func (b *Buffer) WriteI64BENext(data []int64) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *Buffer) WriteF32LE(off int64, data []float32) {
-	if (off + int64(len(data))*4) > b.cap {
+	if off > b.cap-int64(len(data))*4 {
 		panic(BufferOverwriteError)
 	}
 	if off < 0 {
@@ -904,7 +904,7 @@ func (b *Buffer) WriteF32LENext(data []float32) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *Buffer) WriteF32BE(off int64, data []float32) {
-	if (off + int64(len(data))*4) > b.cap {
+	if off > b.cap-int64(len(data))*4 {
 		panic(BufferOverwriteError)
 	}
 	if off < 0 {
@@ -940,7 +940,7 @@ func (b *Buffer) WriteF32BENext(data []float32) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *Buffer) WriteF64LE(off int64, data []float64) {
-	if (off + int64(len(data))*8) > b.cap {
+	if off > b.cap-int64(len(data))*8 {
 		panic(BufferOverwriteError)
 	}
 	if off < 0 {
@@ -980,7 +980,7 @@ func (b *Buffer) WriteF64LENext(data []float64) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *Buffer) WriteF64BE(off int64, data []float64) {
-	if (off + int64(len(data))*8) > b.cap {
+	if off > b.cap-int64(len(data))*8 {
 		panic(BufferOverwriteError)
 	}
 	if off < 0 {
@@ -1020,7 +1020,7 @@ func (b *Buffer) WriteF64BENext(data []float64) {
 // without modifying the internal offset value
 func (b *Buffer) ReadBytes(off, n int64) []byte {
 
-	if (off + n) > b.cap {
+	if n > b.cap || off > b.cap-n {
 
 		panic(BufferOverreadError)
 
@@ -1068,7 +1068,7 @@ func (b *Buffer) ReadByteNext() (out byte) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *Buffer) ReadU16LE(off, n int64) (out []uint16) {
-	if (off + n*2) > b.cap {
+	if n > b.cap/2 || off > b.cap-n*2 {
 		panic(BufferOverreadError)
 	}
 	if off < 0 {
@@ -1103,7 +1103,7 @@ func (b *Buffer) ReadU16LENext(n int64) (out []uint16) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *Buffer) ReadU16BE(off, n int64) (out []uint16) {
-	if (off + n*2) > b.cap {
+	if n > b.cap/2 || off > b.cap-n*2 {
 		panic(BufferOverreadError)
 	}
 	if off < 0 {
@@ -1138,7 +1138,7 @@ func (b *Buffer) ReadU16BENext(n int64) (out []uint16) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *Buffer) ReadU32LE(off, n int64) (out []uint32) {
-	if (off + n*4) > b.cap {
+	if n > b.cap/4 || off > b.cap-n*4 {
 		panic(BufferOverreadError)
 	}
 	if off < 0 {
@@ -1173,7 +1173,7 @@ func (b *Buffer) ReadU32LENext(n int64) (out []uint32) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *Buffer) ReadU32BE(off, n int64) (out []uint32) {
-	if (off + n*4) > b.cap {
+	if n > b.cap/4 || off > b.cap-n*4 {
 		panic(BufferOverreadError)
 	}
 	if off < 0 {
@@ -1208,7 +1208,7 @@ func (b *Buffer) ReadU32BENext(n int64) (out []uint32) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *Buffer) ReadU64LE(off, n int64) (out []uint64) {
-	if (off + n*8) > b.cap {
+	if n > b.cap/8 || off > b.cap-n*8 {
 		panic(BufferOverreadError)
 	}
 	if off < 0 {
@@ -1243,7 +1243,7 @@ func (b *Buffer) ReadU64LENext(n int64) (out []uint64) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *Buffer) ReadU64BE(off, n int64) (out []uint64) {
-	if (off + n*8) > b.cap {
+	if n > b.cap/8 || off > b.cap-n*8 {
 		panic(BufferOverreadError)
 	}
 	if off < 0 {
@@ -1278,7 +1278,7 @@ func (b *Buffer) ReadU64BENext(n int64) (out []uint64) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *Buffer) ReadI16LE(off, n int64) (out []int16) {
-	if (off + n*2) > b.cap {
+	if n > b.cap/2 || off > b.cap-n*2 {
 		panic(BufferOverreadError)
 	}
 	if off < 0 {
@@ -1313,7 +1313,7 @@ func (b *Buffer) ReadI16LENext(n int64) (out []int16) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *Buffer) ReadI16BE(off, n int64) (out []int16) {
-	if (off + n*2) > b.cap {
+	if n > b.cap/2 || off > b.cap-n*2 {
 		panic(BufferOverreadError)
 	}
 	if off < 0 {
@@ -1348,7 +1348,7 @@ func (b *Buffer) ReadI16BENext(n int64) (out []int16) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *Buffer) ReadI32LE(off, n int64) (out []int32) {
-	if (off + n*4) > b.cap {
+	if n > b.cap/4 || off > b.cap-n*4 {
 		panic(BufferOverreadError)
 	}
 	if off < 0 {
@@ -1383,7 +1383,7 @@ func (b *Buffer) ReadI32LENext(n int64) (out []int32) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *Buffer) ReadI32BE(off, n int64) (out []int32) {
-	if (off + n*4) > b.cap {
+	if n > b.cap/4 || off > b.cap-n*4 {
 		panic(BufferOverreadError)
 	}
 	if off < 0 {
@@ -1418,7 +1418,7 @@ func (b *Buffer) ReadI32BENext(n int64) (out []int32) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *Buffer) ReadI64LE(off, n int64) (out []int64) {
-	if (off + n*8) > b.cap {
+	if n > b.cap/8 || off > b.cap-n*8 {
 		panic(BufferOverreadError)
 	}
 	if off < 0 {
@@ -1453,7 +1453,7 @@ func (b *Buffer) ReadI64LENext(n int64) (out []int64) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *Buffer) ReadI64BE(off, n int64) (out []int64) {
-	if (off + n*8) > b.cap {
+	if n > b.cap/8 || off > b.cap-n*8 {
 		panic(BufferOverreadError)
 	}
 	if off < 0 {
@@ -1488,7 +1488,7 @@ func (b *Buffer) ReadI64BENext(n int64) (out []int64) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *Buffer) ReadF32LE(off, n int64) (out []float32) {
-	if (off + n*4) > b.cap {
+	if n > b.cap/4 || off > b.cap-n*4 {
 		panic(BufferOverreadError)
 	}
 	if off < 0 {
@@ -1525,7 +1525,7 @@ func (b *Buffer) ReadF32LENext(n int64) (out []float32) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *Buffer) ReadF32BE(off, n int64) (out []float32) {
-	if (off + n*4) > b.cap {
+	if n > b.cap/4 || off > b.cap-n*4 {
 		panic(BufferOverreadError)
 	}
 	if off < 0 {
@@ -1562,7 +1562,7 @@ func (b *Buffer) ReadF32BENext(n int64) (out []float32) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *Buffer) ReadF64LE(off, n int64) (out []float64) {
-	if (off + n*8) > b.cap {
+	if n > b.cap/8 || off > b.cap-n*8 {
 		panic(BufferOverreadError)
 	}
 	if off < 0 {
@@ -1599,7 +1599,7 @@ func (b *Buffer) ReadF64LENext(n int64) (out []float64) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *Buffer) ReadF64BE(off, n int64) (out []float64) {
-	if (off + n*8) > b.cap {
+	if n > b.cap/8 || off > b.cap-n*8 {
 		panic(BufferOverreadError)
 	}
 	if off < 0 {
-- 
2.43.0


From f5b11742a796feaec5ad2955b012b1721130b96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:33 +0000
Subject: [PATCH 08/10] fix: v1 ReadComplex checked bounds for n bytes instead
 of n integers

---
 v1/buffer.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/v1/buffer.go b/v1/buffer.go
index 51ec970..9cb7a8c 100644
--- a/v1/buffer.go
+++ b/v1/buffer.go
@@ -371,7 +371,24 @@ func (b *Buffer) read(off, n int64) []byte {
 // readComplex reads a slice of bytes from the buffer at the specified offset with the specified endianness and integer type
 func (b *Buffer) readComplex(off, n int64, size IntegerSize, endian binary.ByteOrder) interface{} {
 
-	data := b.read(off, n)
+	switch size {
+
+	case Unsigned8, Unsigned16, Unsigned32, Unsigned64:
+		break
+
+	default:
+		panic(BufferInvalidIntegerSizeError)
+
+	}
+
+	// checked before multiplying, so that the byte count can't overflow
+	if n > b.cap/int64(size) {
+
+		panic(BufferOverreadError)
+
+	}
+
+	data := b.read(off, n*int64(size))
 
 	switch size {
 
-- 
2.43.0


From ff5b3dc37eb2f1bf4c1c26485a9c1a83fc8b29da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:23 +0000
Subject: [PATCH 09/10] fix: v1 and v2 ReadByte and v1 ReadComplex read the
 contents unlocked

---
 v1/buffer.go | 10 +++++++++-
 v2/buffer.go |  7 ++++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/v1/buffer.go b/v1/buffer.go
index 9cb7a8c..e915d21 100644
--- a/v1/buffer.go
+++ b/v1/buffer.go
@@ -390,6 +390,9 @@ func (b *Buffer) readComplex(off, n int64, size IntegerSize, endian binary.ByteO
 
 	data := b.read(off, n*int64(size))
 
+	b.Lock()
+	defer b.Unlock()
+
 	switch size {
 
 	case Unsigned8:
@@ -610,7 +613,12 @@ func (b *Buffer) AfterBit(off ...int64) int64 {
 // ReadByte returns the next byte from the specified offset without modifying the internal offset value
 func (b *Buffer) ReadByte(off int64) byte {
 
-	return b.read(off, 1)[0]
+	data := b.read(off, 1)
+
+	b.Lock()
+	defer b.Unlock()
+
+	return data[0]
 
 }
 
diff --git a/v2/buffer.go b/v2/buffer.go
index a43ac65..20401e9 100644
--- a/v2/buffer.go
+++ b/v2/buffer.go
@@ -1125,7 +1125,12 @@ func (b *Buffer) AfterBit(off ...int64) int64 {
 // ReadByte returns the next byte from the specified offset without modifying the internal offset value
 func (b *Buffer) ReadByte(off int64) byte {
 
-	return b.read(off, 1)[0]
+	data := b.read(off, 1)
+
+	b.Lock()
+	defer b.Unlock()
+
+	return data[0]
 
 }
 
-- 
2.43.0


From 5e9bcaeb1dd4cf0b91bd29df2f1cb837440ae29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:25 +0000
Subject: [PATCH 10/10] fix: generator left the tail of a longer old output
 file in place

---
 generation/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generation/main.go b/generation/main.go
index d1f4e87..429e31a 100644
--- a/generation/main.go
+++ b/generation/main.go
@@ -103,7 +103,7 @@ func main() {
 	}
 
 	for name, contents := range generated {
-		file, err := os.OpenFile(strings.Join([]string{strings.TrimSuffix(strings.TrimPrefix(name, "_"), ".go"), ".generated.go"}, ""), os.O_RDWR|os.O_CREATE, 0644)
+		file, err := os.OpenFile(strings.Join([]string{strings.TrimSuffix(strings.TrimPrefix(name, "_"), ".go"), ".generated.go"}, ""), os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0644)
 		if err != nil {
 			fmt.Printf("! unable to open source file. (%v)\n", err)
 			continue
-- 
2.43.0

