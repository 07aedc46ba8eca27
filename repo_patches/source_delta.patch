From 6f005445611e770c206400d0eed2eeb77a236905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:55 +0000
Subject: [PATCH 001/116] fix: bitstream accesses memory outside of its buffer

_nextbits and _putbits always touch 4 or 5 bytes from the current byte on,
so near the end of the buffer they read and wrote past the allocation.
---
 src/mg/core/bitstream.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mg/core/bitstream.h b/src/mg/core/bitstream.h
index 23aa4df..82435e2 100644
--- a/src/mg/core/bitstream.h
+++ b/src/mg/core/bitstream.h
@@ -48,6 +48,8 @@
 #define DEFAULT_FILE_PAGE 8*1024 //8k
 #endif
 
+#define BITSTREAM_BUFFER_SLACK 8
+
 #define BITSTREAM_READ_DEBUG 0
 #define BITSTREAM_POSITION_DEBUG 0
 
@@ -385,7 +387,9 @@ class bitstream_base : public Ibitstream_cb
 
 	void init(uint32_t buf_len, bool load = true)
 	{
-		_buf        = new unsigned char[buf_len];
+		//bits are moved in groups of up to 5 bytes: the last group can go past the buffer end
+		_buf        = new unsigned char[buf_len + BITSTREAM_BUFFER_SLACK];
+		::memset(_buf, 0, buf_len + BITSTREAM_BUFFER_SLACK);
 		_buf_size   = buf_len;
         _shadow_buf = new unsigned char[buf_len];
 		_shadow_len = 0;
-- 
2.43.0


From 3ab08e9241bf64ed9947e3423f398f842c9f6834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:49 +0000
Subject: [PATCH 002/116] fix: bitstream returns wrong data near the end of the
 stream

fill_buf left the unread part of the shadow buffer at its old offset and
relied on the next read to move it down. That read never delivers data when
the shadow buffer already holds the end of the stream, and the move was wrong
when the shadow buffer was only partially filled.
---
 src/mg/core/bitstream.h | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/mg/core/bitstream.h b/src/mg/core/bitstream.h
index 82435e2..0f4c854 100644
--- a/src/mg/core/bitstream.h
+++ b/src/mg/core/bitstream.h
@@ -1218,6 +1218,8 @@ template<class Type> void bitstream_base<Type>::fill_buf()
 				memcpy(_buf + u, _shadow_buf, n);
 				_shadow_len -= n;
 				_buf_len += n;
+				// keep the unread data at the beginning of the shadow buffer
+				memmove(_shadow_buf, _shadow_buf + n, _shadow_len);
 			}
 			else
 			{
@@ -1257,13 +1259,6 @@ template<class Type> void bitstream_base<Type>::read_cb(const unsigned char * p_
 
 			if (read)
 			{
-				
-				if (_shadow_len)
-				{
-					//copy end to beginning
-					memcpy(_shadow_buf, _shadow_buf + (_buf_size - _shadow_len), _shadow_len);
-				}
-
 				memcpy(_shadow_buf + _shadow_len, p_val, read);
 
 				_shadow_len += read;
-- 
2.43.0


From a598741aad4155233fe141ce260882ad9c813ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:27 +0000
Subject: [PATCH 003/116] fix: bitstream set_position keeps the bit offset
 inside of the byte

A move inside of the buffer kept the bits already consumed from the current
byte, so the next read started in the middle of the requested byte. A move
which reloads the buffer starts at its first bit.
---
 src/mg/core/bitstream.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mg/core/bitstream.h b/src/mg/core/bitstream.h
index 0f4c854..c548da9 100644
--- a/src/mg/core/bitstream.h
+++ b/src/mg/core/bitstream.h
@@ -711,6 +711,10 @@ public:
 			}
 
 			mg::core::auto_lock l(_load_lock);
+
+			//positions are in bytes: drop the bits already taken from the current one
+			_tot_bits -= (_cur_bit & 7);
+			_cur_bit  -= (_cur_bit & 7);
 			
 			//buffer start
 			uint64_t epos = _p_cb->get_position();
-- 
2.43.0


From 67b65b5a2811cdcff3c97d4fd99982228b3288b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:00 +0000
Subject: [PATCH 004/116] fix: bitstream makes up bits past the end of the data

When fewer bits than requested were left, _nextbits refilled the buffer with
what there was, then returned zeros for the missing bits and moved past the
end instead of throwing EndOfData.
---
 src/mg/core/bitstream.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/mg/core/bitstream.h b/src/mg/core/bitstream.h
index c548da9..f0fe002 100644
--- a/src/mg/core/bitstream.h
+++ b/src/mg/core/bitstream.h
@@ -1320,11 +1320,10 @@ template<class Type> uint32_t  bitstream_base<Type>::_nextbits(int n)
 
 	_ASSERTE((_cur_bit >> 3) <= _buf_size);
 
-	// make sure we have enough data
-	if (_cur_bit + n >(_buf_len << 3))
+	// make sure we have enough data, fill_buf throws when there is no more
+	while (_cur_bit + n >(_buf_len << 3))
 	{
 		fill_buf();
-		_ASSERTE(_cur_bit == 0);
 	}
 
 	// starting byte in buffer
-- 
2.43.0


From d7c399184f8216dfeff8960ae410485eac9f8efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:21 +0000
Subject: [PATCH 005/116] fix: bitstream read throws EndOfData when 1 to 3
 bytes are left

__read used _nextbits(32) to reload the buffer, which throws when less than
32 bits remain although the requested bytes were delivered. Only reload when
the buffer has been used up.
---
 src/mg/core/bitstream.h | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/mg/core/bitstream.h b/src/mg/core/bitstream.h
index f0fe002..b1b5a4d 100644
--- a/src/mg/core/bitstream.h
+++ b/src/mg/core/bitstream.h
@@ -995,8 +995,6 @@ private:
 
 			this->_cur_bit += (size << 3);
 			this->_tot_bits += (size << 3);
-
-			this->_nextbits(32); //reload buffer if needed
 		}
 		else /*if ((available + this->_shadow_len) > size)*/
 		{
@@ -1007,7 +1005,7 @@ private:
 			this->_tot_bits += (available << 3);
 
 			if(!this->atend())
-				this->_nextbits(32); //reload buffer if needed
+				this->fill_buf(); //everything has been used: reload buffer
 			else
 			{
 				//we are at the end
@@ -1029,9 +1027,6 @@ private:
 
 			this->_cur_bit += (todo << 3);
 			this->_tot_bits += (todo << 3);
-
-			if(!this->atend())
-				this->_nextbits(32); //reload buffer if needed
 			
 			(*read) = available + todo;
 
-- 
2.43.0


From 392f588a9d87163c6916d71645d47eb8abdaa3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:42 +0000
Subject: [PATCH 006/116] fix: bitstream set_position throws EndOfData when 1
 to 3 bytes are left

The buffer switch used _nextbits(32), which throws when the rest of the data
is shorter than 32 bits.
---
 src/mg/core/bitstream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mg/core/bitstream.h b/src/mg/core/bitstream.h
index b1b5a4d..ba12768 100644
--- a/src/mg/core/bitstream.h
+++ b/src/mg/core/bitstream.h
@@ -754,7 +754,7 @@ public:
 					_tot_bits += (cur_ava << 3);
 
 					//force buffer switch
-					this->_nextbits(32);
+					this->fill_buf();
 
 					_ASSERTE(0 == _cur_bit);
 					//_ASSERTE(0 == _shadow_len);
-- 
2.43.0


From 8467b44e96b8ded3e64a21abb7145db5505bd136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:03 +0000
Subject: [PATCH 007/116] fix: bitstream set_position past the end moves out of
 the buffer

Moving to the end advanced the position in the current buffer also by what is
still in the shadow buffer, which makes the next refill move memory outside of
the buffer. Treat it as a move to the last position.
---
 src/mg/core/bitstream.h | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/src/mg/core/bitstream.h b/src/mg/core/bitstream.h
index ba12768..6dd2a88 100644
--- a/src/mg/core/bitstream.h
+++ b/src/mg/core/bitstream.h
@@ -730,7 +730,11 @@ public:
 				, "SET-POSITION\t%" PRIu64 "\t%" PRIu64 "\t%" PRIu64 "\t%" PRIu32 "\t%" PRIu32 "\t%" PRIu32 ""
 				, rhs, epos, pos, _buf_len, _shadow_len, _buf_size);
 
-			if ((rhs < epos) //already read
+			//there is nothing past the end: move to the end
+			if (_p_cb->eof() && epos < rhs)
+				rhs = epos;
+
+			if ((rhs <= epos) //already read
 				&& (kpos <= rhs)
 				)
 			{
@@ -800,18 +804,6 @@ public:
 
 				}
 			}
-            else if(_p_cb->eof() && epos < rhs)
-            {
-                //move to the end
-                if(pos < epos)
-                {
-                    uint64_t n = (epos - pos) << 3;
-                    _cur_bit += n;
-                    _tot_bits += n;
-
-                    _ASSERTE((_cur_bit >> 3) <= _buf_size);
-                }
-            }
 			else
 			{
                 
-- 
2.43.0


From 57053c9c6a3dec4849816d1dc7e992731055176a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:38 +0000
Subject: [PATCH 008/116] fix: bitstream skipbits lands on the wrong position

A skip which leaves the loaded data added the distance twice before seeking,
stopped at the end of the current buffer although the shadow buffer held the
rest of the data, and dropped the position when less than 32 bits remained.
It also waited for pending reads while holding the lock they need.
---
 src/mg/core/bitstream.h | 68 ++++++++---------------------------------
 1 file changed, 12 insertions(+), 56 deletions(-)

diff --git a/src/mg/core/bitstream.h b/src/mg/core/bitstream.h
index 6dd2a88..3d354d8 100644
--- a/src/mg/core/bitstream.h
+++ b/src/mg/core/bitstream.h
@@ -903,68 +903,24 @@ protected:
 
 	virtual void _skipbits(uint16_t n)
 	{
-		//_getbits(n); 
+		uint64_t todo = n;
 
-		mg::core::auto_lock l(_load_lock);
-
-		uint64_t bit_len = _buf_len << 3;
-
-        _ASSERTE(bit_len >= _cur_bit);
-
-		uint64_t bit_ava = bit_len - _cur_bit;
-
-		if (bit_ava < n)
+		while (true)
 		{
-			//we do not have enough bits
-
-			uint64_t bit_sha = _shadow_len << 3;
-
-			if ((bit_ava + bit_sha) > n)
-			{
-				_cur_bit += bit_ava;
-				_nextbits(32); //move at the beginning of the _shadow and async reload shadow
-				_ASSERTE(_cur_bit == 0);
-				_ASSERTE((bit_sha >> 3) == _buf_len);
-				_ASSERTE((n - bit_ava) < (_buf_len << 3));
-				_cur_bit += (n - bit_ava);
-				_tot_bits += n;
-			}
-            else if(has_bits(n))
-			{
-				uint64_t pos = _getpos();
-				         pos += n;
+			uint64_t bit_len = static_cast<uint64_t>(_buf_len) << 3;
+			uint64_t bit_ava = (bit_len > _cur_bit) ? bit_len - _cur_bit : 0;
+			uint64_t move    = (bit_ava < todo) ? bit_ava : todo;
 
-						 uint64_t remain = pos % 8;
+			_cur_bit  += move;
+			_tot_bits += move;
+			todo      -= move;
 
-						 _set_position((pos + n) >> 3);
-
-						 _ASSERTE(_cur_bit == 0);
-
-                         _ASSERTE((_buf_len << 3) >= (_cur_bit + remain));
-
-						 _cur_bit += remain;
-						 _tot_bits += remain;
-						 
-			}
-            else
-            {
-                //we are at the end
-                if(!atend())
-                {
-                    _cur_bit += bit_ava;
-				    _tot_bits += bit_ava; 
-                }
-
-                _ASSERTE(atend());
-            }
+			//we are done or at the end
+			if (!todo || atend())
+				break;
 
+			fill_buf(); //everything has been used: reload buffer
 		}
-		else
-		{
-			_cur_bit += n;
-			_tot_bits += n;
-		}
-
 	}
 private:
 
-- 
2.43.0


From 8e215beb15790e531ef09050a9b19d3230f47478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:59 +0000
Subject: [PATCH 009/116] fix: bitstream align never returns when the boundary
 is past the end

At the end of the data skipbits does not move any more, so the loop looking
for the next boundary did not end.
---
 src/mg/core/bitstream.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mg/core/bitstream.h b/src/mg/core/bitstream.h
index 3d354d8..c7b2c32 100644
--- a/src/mg/core/bitstream.h
+++ b/src/mg/core/bitstream.h
@@ -512,6 +512,9 @@ protected:
 			_skipbits(s);
 		}
 		while (_tot_bits % n) {
+			//there is nothing to skip past the end
+			if (_load && atend())
+				throw EndOfData(_T(__FILE__), __LINE__);
 			s += 8;
 			_skipbits(8);
 		}
-- 
2.43.0


From 1c13a70a6a09e6378e3e9e61f1d2e5f114e5c648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:23 +0000
Subject: [PATCH 010/116] fix: align and skipbits on a bitstream opened for
 writing

They moved the position without producing the bits: after a flush align never
returned, and close to the end of the buffer the position left the buffer.
The skipped bits are now written as zeros.
---
 src/mg/core/bitstream.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/mg/core/bitstream.h b/src/mg/core/bitstream.h
index c7b2c32..991425c 100644
--- a/src/mg/core/bitstream.h
+++ b/src/mg/core/bitstream.h
@@ -908,6 +908,15 @@ protected:
 	{
 		uint64_t todo = n;
 
+		if (!_load)
+		{
+			//writing: the skipped bits are zeros
+			for (; todo > 32; todo -= 32)
+				_putbits(0, 32);
+			_putbits(0, static_cast<short>(todo));
+			return;
+		}
+
 		while (true)
 		{
 			uint64_t bit_len = static_cast<uint64_t>(_buf_len) << 3;
-- 
2.43.0


From 23cc44ad683b30a714931707bac5ee208c58ab1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:26 +0000
Subject: [PATCH 011/116] fix: signal_event loses signals and stops waiting
 early

signal() changed the state without the lock, so a waiter between its check
and the wait missed it, and it freed only one of the waiting threads. A timed
wait returned false at once when another thread held the lock, returned false
when the signal arrived with the timeout, and both waits returned on spurious
wakeups.
---
 src/mg/core/thread.cpp | 48 ++++++++++++++++++------------------------
 1 file changed, 20 insertions(+), 28 deletions(-)

diff --git a/src/mg/core/thread.cpp b/src/mg/core/thread.cpp
index c783ffe..6328b61 100644
--- a/src/mg/core/thread.cpp
+++ b/src/mg/core/thread.cpp
@@ -98,56 +98,48 @@ signal_event::~signal_event()
 
 void signal_event::signal()
 {
-	if (_signed)
-		return;
+	auto_lock l(_crit_sec);
 
 	_signed = true;
 	//free anyone waiting
-	uv_cond_signal(&_cond_t);
-
+	uv_cond_broadcast(&_cond_t);
 }
 
 void signal_event::reset()
 {
+	auto_lock l(_crit_sec);
+
 	_signed = false;
 }
 
 void signal_event::wait()
 {
-	if (_signed)
-		return;
-	
-	_crit_sec.lock();
-	uv_cond_wait(&_cond_t, &_crit_sec._mutex);
-	_crit_sec.unLock();
+	auto_lock l(_crit_sec);
+
+	while (!_signed)
+		uv_cond_wait(&_cond_t, &_crit_sec._mutex);
 }
 
 bool signal_event::wait(uint32_t millyseconds)
 {
-	if (_signed)
-	   return true;
+	auto_lock l(_crit_sec);
 
-	double t = millyseconds;
-	         t *= 1e6;
-	
-	
-	bool work = true;
+	const uint64_t end = uv_hrtime() + static_cast<uint64_t>(millyseconds) * 1000000;
 
-	
-	if(!_crit_sec.try_lock())
-		return false;
-	int n = uv_cond_timedwait(&_cond_t, &_crit_sec._mutex, (uint64_t)t);
-	_crit_sec.unLock();
-	if(0 == n)
-	  return (_signed);
+	while (!_signed)
+	{
+		const uint64_t now = uv_hrtime();
 
-	if(UV_ETIMEDOUT == n)
-	  return false;
+		if (now >= end)
+			break;
 
-	UVCHECK(n);
+		int n = uv_cond_timedwait(&_cond_t, &_crit_sec._mutex, end - now);
 
-	return false;
+		if (UV_ETIMEDOUT != n)
+			UVCHECK(n);
+	}
 
+	return _signed;
 }
 
 bool signal_event::is_signaled()
-- 
2.43.0


From 0b0bb6057b4a9addabaa3f14c76c12f406aadbd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:47 +0000
Subject: [PATCH 012/116] fix: bitstream reports the end while the last
 asynchronous read is pending

The storage is at its end as soon as the last read is issued. Until that read
completed the stream answered end of data, and set_position computed the
position of its buffers as if the data were already there.
---
 src/mg/core/bitstream.h | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/mg/core/bitstream.h b/src/mg/core/bitstream.h
index 991425c..2fae65e 100644
--- a/src/mg/core/bitstream.h
+++ b/src/mg/core/bitstream.h
@@ -391,6 +391,7 @@ class bitstream_base : public Ibitstream_cb
 		_buf        = new unsigned char[buf_len + BITSTREAM_BUFFER_SLACK];
 		::memset(_buf, 0, buf_len + BITSTREAM_BUFFER_SLACK);
 		_buf_size   = buf_len;
+		_pending_read = false;
         _shadow_buf = new unsigned char[buf_len];
 		_shadow_len = 0;
 		_buf_len    = 0;
@@ -573,9 +574,15 @@ public:
 	virtual bool atend()
 	{
 		if (_p_cb->eof())
-			if(!_shadow_len)
-				if ((_buf_len << 3) <= _cur_bit)
+			if ((_buf_len << 3) <= _cur_bit)
+			{
+				//the last read can still be on its way
+				if (_pending_read)
+					wait();
+
+				if(!_shadow_len)
 					return true;
+			}
 
 		return false;
 	}
@@ -708,7 +715,8 @@ public:
 
 		bool do_reload = false;
 		{
-			if (0 == _shadow_len && ((!_p_cb->eof()) || _pending_read) )
+			//the position of the buffers is not known while a read is on its way
+			if (_pending_read || (0 == _shadow_len && (!_p_cb->eof())))
 			{
 				wait();
 			}
@@ -1124,15 +1132,16 @@ public:
 
 template<class Type> void bitstream_base<Type>::fill_buf()
 {
-	if ((!_shadow_len) && _p_cb->eof())
-		throw EndOfData(_T(__FILE__), __LINE__);
-
 	_ASSERTE((_cur_bit >> 3) <= _buf_size);
 
 	if (_shadow_len != _buf_size) {
+		//the last read can still be on its way
 		wait();
 	}
 
+	if ((!_shadow_len) && _p_cb->eof())
+		throw EndOfData(_T(__FILE__), __LINE__);
+
 	{
 		auto_lock l(_load_lock);
 
-- 
2.43.0


From 628f53adc916aaf61d4d89e8dd82cf8a4c086639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:52 +0000
Subject: [PATCH 013/116] fix: copy_stream copies past the end of the requested
 range

The last read always asked for a whole chunk.
---
 src/mg/core/bitstream.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/mg/core/bitstream.cpp b/src/mg/core/bitstream.cpp
index 05920b3..ee35247 100644
--- a/src/mg/core/bitstream.cpp
+++ b/src/mg/core/bitstream.cpp
@@ -203,7 +203,13 @@ void copy_stream(
 		
 		FDBGC0(COPY_STREAM_DEBUG, "read");
 
-		ccs.read(source, chunk);
+		uint32_t to_read = chunk;
+
+		//do not go past the end of the range
+		if (0 != endpos && (endpos - source.get_position()) < to_read)
+			to_read = static_cast<uint32_t>(endpos - source.get_position());
+
+		ccs.read(source, to_read);
 		
 	}
 
-- 
2.43.0


From fa1b2308da774682376273e78133e0c855547d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:19 +0000
Subject: [PATCH 014/116] fix: copy_stream returns while the last write
 callback still uses it

The counters were shared with the callback thread without a lock: wait_end
could see the last write counted and destroy the events which write_cb was
about to signal.
---
 src/mg/core/bitstream.cpp | 77 +++++++++++++++++----------------------
 1 file changed, 34 insertions(+), 43 deletions(-)

diff --git a/src/mg/core/bitstream.cpp b/src/mg/core/bitstream.cpp
index ee35247..6ef81d5 100644
--- a/src/mg/core/bitstream.cpp
+++ b/src/mg/core/bitstream.cpp
@@ -43,7 +43,7 @@ class _ccopy_stream :public Ibitstream_cb
 	uint32_t _max_out;
 
 
-	bool _wait_end;
+	critical_section _lock;
 
 	void wait(signal_event & ev) {
 
@@ -60,9 +60,18 @@ public:
 	
 	void wait_read()
 	{
-		while (_read - _write > _max_out)
+		while (true)
 		{
-			_read_event.reset();
+			do {
+				auto_lock l(_lock);
+
+				if (_read - _write <= _max_out)
+					return;
+
+				_read_event.reset();
+
+			} while (0);
+
 			FDBGC3(COPY_STREAM_WAIT, "wait-read\t%u\t%u\t%u", _read, _write, _traveling);
 			//wait(_read_event);
 			
@@ -72,46 +81,29 @@ public:
 		}
 	}
 
-	void wait_end()
+	//true when everything read has also been written.
+	//The lock makes sure the last call to write_cb does not use this object any more.
+	bool is_done()
 	{
-		_wait_end = true;
+		auto_lock l(_lock);
 
 		if (_read == _write)
-		{
-			//wait for the last call to read_cb to end
-            //we do not want to wait in case the call is synchronous
-			if(!_write_event.wait(NO_WAIT))
-			{
-			   //_ASSERTE(false);
-		       //MGCHECK(E_TIMEOUT);
-			}
-
-			return;
-		}
+			return true;
 
-		while (!_write_event.wait(SMALL_WAIT))
-		{
+		_write_event.reset();
+		return false;
+	}
 
+	void wait_end()
+	{
+		while (!is_done())
+		{
 			FDBGC4(COPY_STREAM_DEBUG, "wait-end\t%u\t%u\t%u\t%u", _read, _write, _traveling, 0);
 
-			if (_read == _write)
-			{
-				//wait for the last call to read_cb to end
-				if (!_write_event.wait(SMALL_WAIT))
-				{
-					_ASSERTE(false);
-
-					MGCHECK(E_TIMEOUT);
-				}
-
-				return;
-			}
+			_destination.idle();
 
-			
+			_write_event.wait(SMALL_WAIT);
 		}
-
-		_write_event.wait();
-
 	}
 
 
@@ -121,7 +113,6 @@ public:
 		, _write(0)
 		, _traveling(0)
 		, _max_out(10)
-		, _wait_end(false)
 
 	{
 		_write_event.reset();
@@ -130,9 +121,11 @@ public:
 	
 	void read(Ibitstream_storage & source, uint32_t chunk)
 	{
-		_read++;
+		do {
+			auto_lock l(_lock);
+			_read++;
+		} while (0);
 
-		
 		source.read(chunk, this);
 
 		
@@ -157,6 +150,7 @@ public:
 	
 	virtual void write_cb(uint32_t written) override
 	{	
+		auto_lock l(_lock);
 
 		_write++;
 		
@@ -168,13 +162,10 @@ public:
 
 		FDBGC3(COPY_STREAM_DEBUG, "write-cb\t%u\t%u\t%u", _read, _write, _traveling);
 
-		if (_wait_end)
+		if (_read == _write)
 		{
-			if (_read == _write)
-			{
-				FDBGC3(COPY_STREAM_WAIT, "write-signal\t%u\t%u\t%u", _read, _write, _traveling);
-				_write_event.signal();
-			}
+			FDBGC3(COPY_STREAM_WAIT, "write-signal\t%u\t%u\t%u", _read, _write, _traveling);
+			_write_event.signal();
 		}
 
 	}
-- 
2.43.0


From d7603cf9eb818eca17e3fe561a0740a296379649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:23 +0000
Subject: [PATCH 015/116] fix: CResource assignment releases the object before
 it is taken over

Assigning a resource to itself, or a resource owned by the object being
replaced, used the object after it had been deleted.
---
 src/mg/cresource.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mg/cresource.h b/src/mg/cresource.h
index 30e899d..8c129bc 100644
--- a/src/mg/cresource.h
+++ b/src/mg/cresource.h
@@ -120,10 +120,12 @@ public:
 	//underline pointer
 	const CResource& Assign(const CResource& res)
 	{
-		if(m_pInternalResource) m_pInternalResource->release();
+		//res can be this resource or be owned by the object we release
+		CInternalResource<Type> * p_old = m_pInternalResource;
 		m_pInternalResource = res.m_pInternalResource;
 		if(m_pInternalResource) m_pInternalResource->addRef();	
-		return res;
+		if(p_old) p_old->release();
+		return *this;
 	}
    	//assign the resource to another resource
 	//Both resource will point to the same
-- 
2.43.0


From c5e567a7a96327d9a62d44950c00f1b11cf4708c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:45 +0000
Subject: [PATCH 016/116] fix: the reference count of CResource is not thread
 safe

Promises and buffers are shared between the caller and the loop thread; both
copy and drop their references without a lock, so counts got lost.
---
 src/mg/cresource.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mg/cresource.h b/src/mg/cresource.h
index 8c129bc..2bd7952 100644
--- a/src/mg/cresource.h
+++ b/src/mg/cresource.h
@@ -24,6 +24,7 @@
 #include <new>
 
 #include <functional>
+#include <atomic>
 
 #pragma once
 
@@ -48,7 +49,7 @@ class CInternalResource
 private:
 
 	Type *m_pointer;
-	long m_iRefCnt;
+	std::atomic<long> m_iRefCnt; //resources are shared with the loop thread
 
 	std::function<void(Type*)> _cleanup;
 	
@@ -76,8 +77,7 @@ private:
 
 	virtual void release()
 	{
-		m_iRefCnt--;
-		if (0 == m_iRefCnt)
+		if (0 == --m_iRefCnt)
 		{
 			if (_cleanup)
 				_cleanup(m_pointer);
-- 
2.43.0


From c1e9ec35dd3417884b7f55445985e3f6d4a00e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:28 +0000
Subject: [PATCH 017/116] fix: operations queued right before uvloopthread::end
 never complete

---
 src/mg/core/uvbase.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mg/core/uvbase.cpp b/src/mg/core/uvbase.cpp
index 39ceac4..3562f05 100644
--- a/src/mg/core/uvbase.cpp
+++ b/src/mg/core/uvbase.cpp
@@ -61,7 +61,8 @@ void uvloopthread::run()
 				do {
 
 					MGCORE::auto_lock l(_cs);
-					if (_loop->alive())
+					//a pending stop makes run return at once
+					while (_loop->alive())
 						_loop->run(UV_RUN_DEFAULT);
 
 				} while (0);
-- 
2.43.0


From 303f8298db2e5ab733d9e42a7e5992f84c12367e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:35 +0000
Subject: [PATCH 018/116] fix: failures of file operations lose their error
 code

---
 src/mg/core/file.cpp | 6 +++---
 src/mg/core/uvbase.h | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mg/core/file.cpp b/src/mg/core/file.cpp
index d7efaf5..213da35 100644
--- a/src/mg/core/file.cpp
+++ b/src/mg/core/file.cpp
@@ -137,11 +137,11 @@ void cfile::uv_file_cb(uv_fs_t* req)
 	if(0 > req->result)
 	{
 
-		std::cout << "!!!file async error " << uv_strerror(ST_U32(req->result))
+		std::cout << "!!!file async error " << uv_strerror(static_cast<int>(req->result))
 			<< _T("\t")
 			<< std::endl;
 
-		fcb->call_er(std::make_exception_ptr(MGCORE::mgexception(ST_U32(req->result), uv_strerror(ST_U32(req->result)), _T(__FILE__), __LINE__)));
+		fcb->call_er(std::make_exception_ptr(MGCORE::mgexception(static_cast<int>(req->result), uv_strerror(static_cast<int>(req->result)), _T(__FILE__), __LINE__)));
 	}
 	else
 	{
@@ -211,7 +211,7 @@ CResource<CPromise<uv_fs_t> > cfile::open(const TCHAR * path, int flags, bool as
 			CResource<CPromise<uv_fs_t> > prom;
 			                              prom.Create();
 
-										  prom->call_er(std::make_exception_ptr(::mg::core::mgexception(ST_U32(req.result), uv_strerror(ST_U32(req.result)), _T(__FILE__), __LINE__)));
+										  prom->call_er(std::make_exception_ptr(::mg::core::mgexception(static_cast<int>(req.result), uv_strerror(static_cast<int>(req.result)), _T(__FILE__), __LINE__)));
 
 										  return prom;
 
diff --git a/src/mg/core/uvbase.h b/src/mg/core/uvbase.h
index 1c570e4..365b221 100644
--- a/src/mg/core/uvbase.h
+++ b/src/mg/core/uvbase.h
@@ -33,7 +33,7 @@
 __UV_BEGIN_NAMESPACE
 
 
-#define UVCHECK(num){ if (num < 0){ throw MGCORE::mgexception(ST_U32(num), uv_strerror(ST_U32(num)), _T(__FILE__), __LINE__); } }
+#define UVCHECK(num){ if (num < 0){ throw MGCORE::mgexception(static_cast<int>(num), uv_strerror(static_cast<int>(num)), _T(__FILE__), __LINE__); } }
 
 
 
-- 
2.43.0


From f6263a79e5c1e840154705229d2048db29faf369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:44 +0000
Subject: [PATCH 019/116] fix: short writes of cfile are reported as complete

---
 src/mg/core/file.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mg/core/file.cpp b/src/mg/core/file.cpp
index 213da35..67c6519 100644
--- a/src/mg/core/file.cpp
+++ b/src/mg/core/file.cpp
@@ -381,7 +381,7 @@ CResource<CPromise<uv_fs_t>> cfile::write(const unsigned char * p_buffer, uint32
 		{
 			/*(*ppos) += pBuffer->size();*/
 			//keep an active reference to the buffer. //we can work in fire and forget.
-			_ASSERTE(req->result = pBuffer->size());
+			_ASSERTE(req->result == static_cast<ssize_t>(pBuffer->size()));
 	    }
 	);
 
-- 
2.43.0


From 8ff4a917c67ea57af6e225ac17ad3997a9862439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:05 +0000
Subject: [PATCH 020/116] fix: sync_file_bitstream seeks to the wrong position
 beyond 4 GiB

---
 src/mg/core/file.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mg/core/file.h b/src/mg/core/file.h
index e565f53..74777d2 100644
--- a/src/mg/core/file.h
+++ b/src/mg/core/file.h
@@ -255,7 +255,7 @@ public:
 	virtual uint64_t get_position() const { return ::ftell(_f); }
 
 	virtual void     set_position(uint64_t rhs) {
-		::fseek(_f, static_cast<uint32_t>(rhs), SEEK_SET);
+		::fseek(_f, static_cast<long>(rhs), SEEK_SET);
 	}
 
 	void close()
-- 
2.43.0


From e67b3fbe90045581a97e2384f6feef899823717c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:06 +0000
Subject: [PATCH 021/116] fix: a failing file callback loses the other
 completions, reads mixed with writes overtake each other

---
 src/mg/core/file.cpp   | 173 +++++++++++++++--------------------------
 src/mg/core/file.h     |   9 +++
 src/mg/core/uvbase.cpp |   2 +-
 src/mg/core/uvbase.h   |  13 +++-
 4 files changed, 86 insertions(+), 111 deletions(-)

diff --git a/src/mg/core/file.cpp b/src/mg/core/file.cpp
index 67c6519..a3bfae6 100644
--- a/src/mg/core/file.cpp
+++ b/src/mg/core/file.cpp
@@ -26,139 +26,84 @@ __MGCORE_BEGIN_NAMESPACE
 #define FILE_DEBUG 0
 #define NEXT_FRONT_DEBUG 0
 
-void cfile::uv_file_cb(uv_fs_t* req)
+void cfile::complete(struct_file_cb * fcb)
 {
-	//std::cout << "file call back" << req->type << " " << req->result << std::endl;
-
-	_ASSERTE(0 < req->data);
-
-	struct_file_cb * fcb = reinterpret_cast<struct_file_cb *>(req->data);
-
-
-#ifdef _DEBUG
-
-	if (req->fs_type == UV_FS_READ )//|| req->fs_type == UV_FS_WRITE)
-	{
-/*		_ASSERTE(fcb->_sequence == (*fcb->_p_arrive)++ );
-		_ASSERTE(0 >= req->result || fcb->_expt == req->result);
-*/	
+	(*fcb->_p_served)++;
 
-		FDBGC1(FILE_DEBUG, "<<<READ\t%u", fcb->_sequence);
-		FDBGC1(FILE_DEBUG, "<<<FORW\t%d", (fcb->_p_forward->empty())?11:10);
-	}
+	const ssize_t result = fcb->_uv_fs_t->result;
 
-#endif
-	
-	if (fcb->_sequence > (*fcb->_p_served)
-		&& req->fs_type == UV_FS_READ
-		//&& 0 <= req->result
-		)
+	//an exception should not go through libuv: it would lose the other completions
+	try
 	{
-		FDBGC2(NEXT_FRONT_DEBUG, "UNORDERED-READ-PUSH\t%u\t%u"
-			, fcb->_sequence
-			, (*fcb->_p_served)
-		);
-		//unordered read operation
-		fcb->_p_forward->push_front(fcb);
-
-		std::forward_list<struct_file_cb *>::iterator it = fcb->_p_forward->begin();
-
-		while (it != fcb->_p_forward->end()
-			&& (*it.operator->())->_sequence > (*fcb->_p_served))
+		if (0 > result)
 		{
-			it++;
+			std::cout << "!!!file async error " << uv_strerror(static_cast<int>(result))
+				<< _T("\t")
+				<< std::endl;
 
-#ifdef _DEBUG
-			if (it != fcb->_p_forward->end())
-			{
-				FDBGC2(NEXT_FRONT_DEBUG, "UNORDERED-READ-LOOK\t%u\t%u"
-					, (*it.operator->())->_sequence
-					, (*fcb->_p_served)
-				);
-			}
-#endif
+			fcb->call_er(std::make_exception_ptr(MGCORE::mgexception(static_cast<int>(result), uv_strerror(static_cast<int>(result)), _T(__FILE__), __LINE__)));
 		}
-
-		if (it == fcb->_p_forward->end())
+		else
 		{
-			//not found
-			FDBGC0(FILE_DEBUG, "UNORDERED-READ-NOT-FOUND");
-			return;
+			fcb->call_cb(fcb->_uv_fs_t);
 		}
-
-		//switch
-		struct_file_cb * temp = (*it.operator->());
-
-		fcb->_p_forward->remove(temp);
-
-		fcb = temp;
-	
 	}
-
-	struct_file_cb * temp = NULL;
-
-	//loop for next item
-	//if (fcb->_p_forward->begin() != fcb->_p_forward->end())
-	
-	bool fcb_empty = fcb->_p_forward->empty();
-	
-	FDBGC3(FILE_DEBUG, "-**-FORW\t%d\t%d\t%d", (fcb_empty)?1:0, (fcb->_p_forward->empty())?11:10, 1);
-
-	if(fcb_empty)
+	catch (...)
 	{
-		FDBGC0(FILE_DEBUG, "***EMPTY");
+		std::exception_ptr eptr = std::current_exception();
+
+		fcb->_p_loop->set_exception(eptr);
 	}
-	
-	if(!fcb_empty)
-	{
-		//fcb->_p_forward->
 
-		_ASSERTE(!fcb->_p_forward->empty());
+	delete fcb;
+}
 
-		temp = fcb->_p_forward->front();  //(*fcb->_p_forward->begin().operator->());
+void cfile::uv_file_cb(uv_fs_t* req)
+{
+	_ASSERTE(0 < req->data);
 
-		FDBGC1(FILE_DEBUG, "---FORW\t%u", fcb->_p_forward->empty());
+	struct_file_cb * fcb = reinterpret_cast<struct_file_cb *>(req->data);
 
-		FDBGC3(NEXT_FRONT_DEBUG, "--RE-READ\t%u\t%u\t%u"
-			, (*fcb->_p_served)
-			, temp->_sequence
+	if (UV_FS_READ == req->fs_type && fcb->_sequence != (*fcb->_p_read_served))
+	{
+		FDBGC2(NEXT_FRONT_DEBUG, "UNORDERED-READ-PUSH\t%u\t%u"
 			, fcb->_sequence
+			, (*fcb->_p_read_served)
 		);
 
-		_ASSERTE(temp->_sequence < 10000);
+		//unordered read operation: it waits for the previous ones
+		fcb->_p_forward->push_front(fcb);
 
-		fcb->_p_forward->pop_front();
+		return;
 	}
 
-	
-	(*fcb->_p_served)++;
-	
-	
-	if(0 > req->result)
+	while (fcb)
 	{
+		struct_file_cb * next = NULL;
 
-		std::cout << "!!!file async error " << uv_strerror(static_cast<int>(req->result))
-			<< _T("\t")
-			<< std::endl;
+		if (UV_FS_READ == fcb->_uv_fs_t->fs_type)
+		{
+			(*fcb->_p_read_served)++;
 
-		fcb->call_er(std::make_exception_ptr(MGCORE::mgexception(static_cast<int>(req->result), uv_strerror(static_cast<int>(req->result)), _T(__FILE__), __LINE__)));
-	}
-	else
-	{
-		fcb->call_cb(fcb->_uv_fs_t);
-	}
-	
-	delete fcb;
+			std::forward_list<struct_file_cb *>::iterator it = fcb->_p_forward->begin();
 
-	if (temp)
-	{
-		_ASSERTE(temp->_sequence < 10001);
+			for (; it != fcb->_p_forward->end(); ++it)
+			{
+				if ((*it)->_sequence == (*fcb->_p_read_served))
+				{
+					next = *it;
+					break;
+				}
+			}
 
-		FDBGC1(NEXT_FRONT_DEBUG, "---RE-READ\t%u", temp->_sequence);
-		uv_file_cb(temp->_uv_fs_t);
-	}
+			if (next)
+				fcb->_p_forward->remove(next);
+		}
 
-	
+		complete(fcb);
+
+		fcb = next;
+	}
 }
 
 
@@ -168,6 +113,8 @@ cfile::cfile(::mg::uv::loopthread & loop)
 	, _position(0)
 	, _outstanding(0)
 	, _served(0)
+	, _read_outstanding(0)
+	, _read_served(0)
 {
 	::memset(&_file_stat, 0, sizeof(uv_stat_t));
 
@@ -280,13 +227,20 @@ CResource<CPromise<uv_fs_t> > cfile::close(bool async)
 
 	//std::cout << _T("cfile::close\t") << _served << _T("\t") << _outstanding << std::endl;
 
-	while (this->_served != this->_outstanding)
+	for (;;)
 	{
-		_ended.wait(10);
-	}
+		//nothing more is going to complete when the loop has ended
+		while (this->_served != this->_outstanding && !_loop->is_done())
+		{
+			_ended.wait(10);
+		}
 
+		//the last completion can be still running and ask for more
+		auto_lock l(_loop->loop_lock());
 
-	_ASSERTE(this->_served == this->_outstanding);
+		if (this->_served == this->_outstanding || _loop->is_done())
+			break;
+	}
 
 	
 	//std::cout << _T("cfile::close 2\t") << _served << _T("\t") << _outstanding << std::endl;
@@ -451,6 +405,7 @@ CResource<CPromise<CBuffer<unsigned char>>> cfile::read(uint32_t size)
 		);
 
 		do_outstanding(cb);
+		cb->_sequence = _read_outstanding++;
 
 		do {
 
diff --git a/src/mg/core/file.h b/src/mg/core/file.h
index 74777d2..bb19b55 100644
--- a/src/mg/core/file.h
+++ b/src/mg/core/file.h
@@ -51,8 +51,11 @@ struct struct_file_cb: CPromise<uv_fs_t>
 
 	uint32_t			* _p_served;
 	//uint32_t            * _p_outstanding;
+	uint32_t			* _p_read_served;
 
 	std::forward_list<struct_file_cb *> * _p_forward;
+
+	MGUV::uvloopthread  * _p_loop;
 };
 
 class cfile
@@ -61,6 +64,7 @@ class cfile
 	MGUV::loopthread _loop;
 
 	static void uv_file_cb(uv_fs_t* req);
+	static void complete(struct_file_cb * fcb);
 
 	//static void process_cb(struct_file_cb * fcb);
 
@@ -82,6 +86,9 @@ class cfile
 
 	uint32_t            _outstanding;
 	uint32_t            _served;
+	//reads are delivered in the order they have been requested
+	uint32_t            _read_outstanding;
+	uint32_t            _read_served;
 
 	signal_event        _ended;
 
@@ -92,7 +99,9 @@ class cfile
 
 		 //(*fcb->_p_outstanding)++;
 		 fcb->_sequence = _outstanding;
+		 fcb->_p_read_served = &_read_served;
 		 fcb->_p_forward = &_unordered_buffer;
+		 fcb->_p_loop = _loop;
 
 		 _outstanding++;
 		 //_ASSERTE(fcb->_p_outstanding >= 0);
diff --git a/src/mg/core/uvbase.cpp b/src/mg/core/uvbase.cpp
index 3562f05..3df8fee 100644
--- a/src/mg/core/uvbase.cpp
+++ b/src/mg/core/uvbase.cpp
@@ -43,7 +43,7 @@ void uvloopthread::run()
 
 			} while (0);
 			
-			if ( (do_run && (!_exit)) /*|| _loop->alive()*/ )
+			if ( (do_run && (!_exit) && (!_failed)) /*|| _loop->alive()*/ )
 			{
 				if (!should_stop())
 					_w.wait(_wait_time);
diff --git a/src/mg/core/uvbase.h b/src/mg/core/uvbase.h
index 365b221..193f694 100644
--- a/src/mg/core/uvbase.h
+++ b/src/mg/core/uvbase.h
@@ -116,6 +116,7 @@ class uvloopthread : public MGCORE::cthread
 	bool _exit;
 
 	std::exception_ptr _last_exception;
+	bool _failed;
 
 	MGCORE::critical_section _cs;
 
@@ -148,6 +149,7 @@ public:
 	uvloopthread():_wait_time(100)
 		, _exit(false)
 		, _last_exception(nullptr)
+		, _failed(false)
 	{
 		_loop.Create();
 	}
@@ -188,7 +190,16 @@ public:
 		end(true);
 	}
 
-	void set_exception(std::exception_ptr & eptr) { _last_exception = eptr; }
+	//ends the loop after what is outstanding has completed
+	void set_exception(std::exception_ptr & eptr)
+	{
+		if (!_failed)
+			_last_exception = eptr;
+
+		_failed = true;
+
+		_loop->stop();
+	}
 };
 
 typedef MGCORE::CResource<uvloopthread> loopthread;
-- 
2.43.0


From 4a228c2a0438b2c6663b75533c37fac073b2dafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:27 +0000
Subject: [PATCH 022/116] fix: cfile forgets how long the file is after seeking
 back from a write

---
 src/mg/core/file.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mg/core/file.cpp b/src/mg/core/file.cpp
index a3bfae6..4bc9960 100644
--- a/src/mg/core/file.cpp
+++ b/src/mg/core/file.cpp
@@ -352,6 +352,10 @@ CResource<CPromise<uv_fs_t>> cfile::write(const unsigned char * p_buffer, uint32
 	} while (0);
 
 	_position += size;
+
+	//the file is at least that long now, wherever the position is set next
+	if (_position > _file_stat.st_size)
+		_file_stat.st_size = _position;
 	
 	return f;
 }
-- 
2.43.0


From f7d1483ae9af0ff9db11fae9b35cbccd581178ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:13 +0000
Subject: [PATCH 023/116] fix: CBuffer::ReadBuffer reads memory outside of the
 buffer when the position is past the end

---
 src/mg/cbuffer.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mg/cbuffer.h b/src/mg/cbuffer.h
index f6be9f3..41e91d4 100644
--- a/src/mg/cbuffer.h
+++ b/src/mg/cbuffer.h
@@ -154,10 +154,12 @@ public:
 	//READ A SPECIFIED NUMBER OF TYPES FROM THE SPECIFIED POSITION
 	bool ReadBuffer(type *buffer, unsigned long dwsize, unsigned long &dwread, sizetype position)
 	{
-				dwread = m_iCurrent - position;
-				if(0 > dwread) //did not have nothing to read
+				dwread = 0;
+				if(position > m_iCurrent) //did not have nothing to read
 					return false;
 
+				dwread = m_iCurrent - position;
+
 				if(dwsize < dwread) //we still have space
 					dwread = dwsize;
 
-- 
2.43.0


From 6a0d5a63e5d9d502a48c889d7843bef1201975da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:13 +0000
Subject: [PATCH 024/116] fix: adding a part of a CBuffer to itself uses
 released memory

---
 src/mg/cbuffer.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/mg/cbuffer.h b/src/mg/cbuffer.h
index 41e91d4..8815c0f 100644
--- a/src/mg/cbuffer.h
+++ b/src/mg/cbuffer.h
@@ -22,6 +22,7 @@
 #include "core/core.h"
 #include <stddef.h>
 #include <new>
+#include <functional>
 #include <string.h>
 //#include <crtdbg.h>
 
@@ -97,8 +98,15 @@ public:
 		if(0 == size)
 			return;
 
+		//the source can be inside of this buffer, which prepare can move
+		const bool own = !(std::less<const type *>()(source, m_p)) && std::less<const type *>()(source, m_p + m_iSize);
+		const size_t own_offset = own ? source - m_p : 0;
+
 		prepare(size);
 
+		if(own)
+			source = m_p + own_offset;
+
 		//DOUBLE CHECK BUT THIS SHOULD NEVER HAPPEN SINCE PREPARE DOES THE SAME CHECK
 		if((m_iSize - m_iCurrent) < size)throw std::bad_alloc();
 		//----------------------------------//
-- 
2.43.0


From 6f009e12d9702c1deffb4143592eefd8dec4fe30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:35 +0000
Subject: [PATCH 025/116] fix: assigning a part of a string to the string
 itself uses released memory

---
 src/mg/alxstring.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mg/alxstring.h b/src/mg/alxstring.h
index a27027b..c7bcf5f 100644
--- a/src/mg/alxstring.h
+++ b/src/mg/alxstring.h
@@ -178,6 +178,9 @@ public:
 	{
 		size_t size = strlen(str); 
 		
+		//str can be inside of our buffer
+		CResource<CBuffer<T, size_t> > keep(m_str);
+
 		m_str = new CBuffer<T>(/*null terminated*/static_cast<uint32_t>(++size));
 		
 		return operator+=(str);
@@ -195,6 +198,9 @@ public:
 	{
 		size_t size = wcslen(str);
 
+		//str can be inside of our buffer
+		CResource<CBuffer<T, size_t> > keep(m_str);
+
 		m_str = new CBuffer<T>(/*null terminated*/static_cast<uint32_t>(++size));
 
 		return operator+=(str);
-- 
2.43.0


From c342a38d5d39e69db6a950b63c698865e469c974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:35 +0000
Subject: [PATCH 026/116] fix: subString returns memory behind the end of the
 string

---
 src/mg/alxstring.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mg/alxstring.h b/src/mg/alxstring.h
index c7bcf5f..9445499 100644
--- a/src/mg/alxstring.h
+++ b/src/mg/alxstring.h
@@ -643,7 +643,9 @@ public:
 	{
 		CstringT &s = const_cast<CstringT&>(*this);
 		//let see if the source buffer is big enough
-		nLen = ST_U32((s.m_str->getSize() - nbegin) < nLen?s.m_str->getSize():nLen);
+		size_t nFull = s.m_str->getFull();
+		size_t nLeft = nbegin < nFull?nFull - nbegin:0;
+		nLen = ST_U32(nLeft < nLen?nLeft:nLen);
 			CResource<CBuffer<TCHAR> > tmp(new CBuffer<TCHAR>(nLen + 1));
 			const TCHAR *sz = s;
 			tmp->add(sz + nbegin, nLen);
-- 
2.43.0


From 25bd7022f943413fe0de61e5fb781328ea667b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:35 +0000
Subject: [PATCH 027/116] fix: append_format passes its argument list to
 sprintf

---
 src/mg/alxstring.h | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/mg/alxstring.h b/src/mg/alxstring.h
index 9445499..57fac57 100644
--- a/src/mg/alxstring.h
+++ b/src/mg/alxstring.h
@@ -779,7 +779,26 @@ public:
 #ifdef _WIN32
 		retVal = StringCbVPrintf(szLine, sizeof(szLine), pszFmtString, args );
 #else
-		retVal = sprintf(szLine, pszFmtString, args);
+		retVal = vsnprintf(szLine, sizeof(szLine), pszFmtString, args);
+
+		if (retVal >= static_cast<int>(sizeof(szLine)))
+		{
+			//it does not fit in the line
+			CBuffer<TCHAR> line(retVal + 1);
+
+			va_list again;
+			va_start( again, pszFmtString );
+			retVal = vsnprintf(line.get(), retVal + 1, pszFmtString, again);
+			va_end( again );
+
+			va_end( args );
+
+			MGBASECHECK(retVal);
+
+			operator+=(line.get());
+
+			return;
+		}
 #endif
 		
 		MGBASECHECK(retVal);
-- 
2.43.0


From 9e56049cb8ae6ef452610d886f61cfbd8da5fb3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:35 +0000
Subject: [PATCH 028/116] fix: a Csplitter used again keeps the parts of the
 previous text

---
 src/mg/splitter.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mg/splitter.h b/src/mg/splitter.h
index e93888f..1c50e38 100644
--- a/src/mg/splitter.h
+++ b/src/mg/splitter.h
@@ -55,6 +55,7 @@ public:
 			return;
 
 		m_str = scontent;
+		m_locator.clear();
 
 		TCHAR *pszbegin = scontent;
 		size_t nLen = _tcslen(sseparator);
-- 
2.43.0


From ef6dacd8210722685b63cff29e407bc8a91679a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:52 +0000
Subject: [PATCH 029/116] fix: IS_U32 and DBL_U64 accept values they cannot
 represent

---
 src/mg/core/core.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mg/core/core.h b/src/mg/core/core.h
index dd03949..064c045 100644
--- a/src/mg/core/core.h
+++ b/src/mg/core/core.h
@@ -180,7 +180,7 @@ inline double U64_DBL(uint64_t rhs)
 inline uint64_t DBL_U64(double rhs)
 {    
     _ASSERTE(rhs >= 0);
-	if (rhs < 0)
+	if (!(rhs >= 0 && rhs < 18446744073709551616.0)) //neither a NaN
 	{
 		throw MGCORE::mgexceptionbase(E_OVERFLOW);
 	}
@@ -265,7 +265,7 @@ inline size_t u64_ST(uint64_t rhs)
 inline uint32_t is_u32(SIGNEDSIZET rhs)
 {
 	_ASSERTE(rhs <= INT32_MAX);
-	if (rhs > INT32_MAX)
+	if (rhs > INT32_MAX || rhs < 0)
 	{
 		throw MGCORE::mgexceptionbase(E_OVERFLOW);
 	}
-- 
2.43.0


From ffb59e61ae9472e13cdc0d77aba9100e23e9942b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:52 +0000
Subject: [PATCH 030/116] fix: mgexception::what does not report the message
 set by set_message

---
 src/mg/exception.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mg/exception.h b/src/mg/exception.h
index ed30e02..4a683e1 100644
--- a/src/mg/exception.h
+++ b/src/mg/exception.h
@@ -79,6 +79,7 @@ public:
 	void set_message(const TCHAR* pmsg)
 	{
 		_msg = pmsg;
+		update_what();
 	}
 
 };
-- 
2.43.0


From e618e4dcf5e7a7223a67cd3da932cfea468a4798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:52 +0000
Subject: [PATCH 031/116] fix: Cmdline hands the arguments of another switch to
 a switch without arguments

---
 src/mg/cmdline.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mg/cmdline.h b/src/mg/cmdline.h
index f1cb7a9..a160f80 100644
--- a/src/mg/cmdline.h
+++ b/src/mg/cmdline.h
@@ -80,6 +80,7 @@ public:
 										TCHAR  *psz = argv[i] + 1;
 										m_cmd = *psz;
 										m_cnt = 0;
+										m_argvs = 0;
 										continue;
 								}
 
-- 
2.43.0


From 266d4ed37b5cce2bdfeee8e572a58597e4377aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:52 +0000
Subject: [PATCH 032/116] fix: a boolean command given by its shortcut has no
 value

---
 src/mg/cmdline.h | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/mg/cmdline.h b/src/mg/cmdline.h
index a160f80..2c45e67 100644
--- a/src/mg/cmdline.h
+++ b/src/mg/cmdline.h
@@ -442,17 +442,9 @@ public:
 				}
 
 				
-				//no args = true
 				if(x < 0)
 				{
 					name  = command.subString(ss, command.len() - ss);
-
-					if( _commands.find(name) != _commands.end()
-					    && _commands[name].t == type_bool)
-				    {
-						
-						value = _T("T");
-				    }
 				}
 				else
 				{
@@ -487,6 +479,12 @@ public:
 						_commands[name] = item;
 					}
 				}				
+				//no args = true
+				if(x < 0 && _commands[name].t == type_bool)
+				{
+					value = _T("T");
+				}
+
 				//TODO: VALIDATE TYPE	
 				_commands[name].psz_value.push_back(value);
 			}
-- 
2.43.0


From 98021587d92995bce613c87d67321b5e01c8b8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:52 +0000
Subject: [PATCH 033/116] fix: an unknown parameter of the command line takes
 over the shortcut 0

---
 src/mg/cmdline.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mg/cmdline.h b/src/mg/cmdline.h
index 2c45e67..9661c57 100644
--- a/src/mg/cmdline.h
+++ b/src/mg/cmdline.h
@@ -475,7 +475,7 @@ public:
 
 					if(add)
 					{
-						console_item item = {type_string, false, _T("unclussified parameter"), '0'};
+						console_item item = {type_string, false, _T("unclussified parameter"), 0x0};
 						_commands[name] = item;
 					}
 				}				
-- 
2.43.0


From c6044fb47173dbe1fb5ceee307f05eea76f6a7bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:52 +0000
Subject: [PATCH 034/116] fix: a value with a colon cannot be given after an
 equal sign

---
 src/mg/cmdline.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mg/cmdline.h b/src/mg/cmdline.h
index 9661c57..784f8c9 100644
--- a/src/mg/cmdline.h
+++ b/src/mg/cmdline.h
@@ -431,8 +431,10 @@ public:
 			if(Equals(command.subString(0, 1), _T("-")))
 			{
 				int x = command.find(_T(":"));
-				if(x < 0)
-					x = command.find(_T("="));
+				int eq = command.find(_T("="));
+				//the first one separates: the value can contain the other one
+				if(x < 0 || (0 <= eq && eq < x))
+					x = eq;
 
 				//check for --command
 				int ss = 1;
-- 
2.43.0


From ae0379a3ab865c1496f31e6a8730408454e5c169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:20 +0000
Subject: [PATCH 035/116] fix: the base64 decoder reads behind its table for
 the character '{'

---
 src/b64/src/cdecode.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/b64/src/cdecode.cpp b/src/b64/src/cdecode.cpp
index 39a95d4..feeb8b7 100644
--- a/src/b64/src/cdecode.cpp
+++ b/src/b64/src/cdecode.cpp
@@ -34,7 +34,7 @@ int base64_decode_value(char value_in)
 	static const char decoding[] = {62,-1,-1,-1,63,52,53,54,55,56,57,58,59,60,61,-1,-1,-1,-2,-1,-1,-1,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,-1,-1,-1,-1,-1,-1,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51};
 	static const char decoding_size = sizeof(decoding);
 	value_in -= 43;
-	if (value_in < 0 || value_in > decoding_size) return -1;
+	if (value_in < 0 || value_in >= decoding_size) return -1;
 	return decoding[(int)value_in];
 }
 
-- 
2.43.0


From 81c0c9fd64f43fb0383cc8617e2a737a6462d06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:20 +0000
Subject: [PATCH 036/116] fix: Ctime takes the years of its SYSTEMTIME for
 years since 1900

SYSTEMTIME has the year itself and months from 1, tm has years since 1900
and months from 0.  Ctime(1904, 1, 1) was February 3804, so MP4NOW (seconds
since 1904) was wrong.
---
 src/mg/core/nx/ctime.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/mg/core/nx/ctime.cpp b/src/mg/core/nx/ctime.cpp
index 7409248..3c222f6 100644
--- a/src/mg/core/nx/ctime.cpp
+++ b/src/mg/core/nx/ctime.cpp
@@ -28,8 +28,8 @@ __ALX_BEGIN_NAMESPACE
 
 inline void tm_to_sm( tm & origin, SYSTEMTIME & sm )
 {
-	sm.wYear = origin.tm_year;
-	sm.wMonth = origin.tm_mon;
+	sm.wYear = origin.tm_year + 1900;
+	sm.wMonth = origin.tm_mon + 1;
 	sm.wDayOfWeek = origin.tm_wday;
 	sm.wDay = origin.tm_mday;
 	sm.wHour = origin.tm_hour;
@@ -42,8 +42,8 @@ inline void tm_to_sm( tm & origin, SYSTEMTIME & sm )
 
 inline void sm_to_tm(const SYSTEMTIME & origin, tm & tms)
 {
-	tms.tm_year = origin.wYear;
-	tms.tm_mon = origin.wMonth;
+	tms.tm_year = origin.wYear - 1900;
+	tms.tm_mon = origin.wMonth - 1;
 	tms.tm_wday = origin.wDayOfWeek;
 	tms.tm_mday = origin.wDay;
 	tms.tm_hour = origin.wHour;
@@ -133,6 +133,9 @@ Ctime::Ctime(uint16_t wYear
 	, uint16_t wMonth
 	, uint16_t wDay)
 {
+	_local = false;
+	_offset = 0;
+
 	_systime.wYear = wYear;
 	_systime.wMonth = wMonth;
 	_systime.wDay = wDay;
-- 
2.43.0


From 3f37c43a753fda210e4ba5136a3ceef6a8e39bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:20 +0000
Subject: [PATCH 037/116] fix: a Ctime read from a text has a random time

sscanf stored ints in 16 bit fields, the milliseconds were dropped and
total_hnano was not initialised.
---
 src/mg/core/nx/ctime.cpp | 41 +++++++++++++++++++++-------------------
 1 file changed, 22 insertions(+), 19 deletions(-)

diff --git a/src/mg/core/nx/ctime.cpp b/src/mg/core/nx/ctime.cpp
index 3c222f6..0c541fd 100644
--- a/src/mg/core/nx/ctime.cpp
+++ b/src/mg/core/nx/ctime.cpp
@@ -62,7 +62,7 @@ inline uint64_t total_hnano(const SYSTEMTIME & systime)
 {
 	if(UINT64_MAX == systime.total_hnano)
 	{
-		return total_seconds(systime) * 10000000ULL;
+		return total_seconds(systime) * 10000000ULL + systime.wMilliseconds * 10000ULL;
 	}
 	else
 	{
@@ -154,19 +154,31 @@ Ctime::Ctime(const TCHAR * str_time
 	, const TCHAR * str_format)
 {
 
+	int year(0), month(0), day(0), hour(0), minute(0), second(0), milliseconds(0);
+
 	//_stscanf(str_time
 	//TODO: _stscanf_s
 	sscanf(str_time
 		, str_format
-		, &_systime.wYear
-		, &_systime.wMonth
-		, &_systime.wDay
-		, &_systime.wHour
-		, &_systime.wMinute
-		, &_systime.wSecond
-		, &_systime.wMilliseconds
+		, &year
+		, &month
+		, &day
+		, &hour
+		, &minute
+		, &second
+		, &milliseconds
 	);
 
+	_systime.wYear = year;
+	_systime.wMonth = month;
+	_systime.wDayOfWeek = 0;
+	_systime.wDay = day;
+	_systime.wHour = hour;
+	_systime.wMinute = minute;
+	_systime.wSecond = second;
+	_systime.wMilliseconds = milliseconds;
+	_systime.total_hnano = UINT64_MAX;
+
 	_local = local;
 	_offset = 0;
 
@@ -196,20 +208,11 @@ int64_t Ctime::MilliSeconds(const SYSTEMTIME * psysBase) const
 
 int64_t Ctime::TotalHNano() const
 {
-	if(UINT64_MAX == _systime.total_hnano)
-	{
-		tm tms;
-		sm_to_tm(_systime, tms);
-		return mktime(&tms) * 10000000ULL;
-	}
-	else
-	{
-		return _systime.total_hnano;
-	}
+	return total_hnano(_systime);
 }
 
 
-int64_t Ctime::TotalMilliseconds() const { return TotalHNano() / 10000ULL; }
+int64_t Ctime::TotalMilliseconds() const { return TotalHNano() / 10000LL; }
 int64_t Ctime::AddMilliSeconds(int64_t milly_to_add) const
 {
 
-- 
2.43.0


From 9ee135c477116516aef6487622fedb0f03f98f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:20 +0000
Subject: [PATCH 038/116] fix: Ctime::MilliSeconds returns a huge number when
 the base is later

---
 src/mg/core/nx/ctime.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mg/core/nx/ctime.cpp b/src/mg/core/nx/ctime.cpp
index 0c541fd..d917641 100644
--- a/src/mg/core/nx/ctime.cpp
+++ b/src/mg/core/nx/ctime.cpp
@@ -195,7 +195,7 @@ int64_t Ctime::MilliSeconds(const SYSTEMTIME * psysBase) const
 		   && UINT64_MAX != _systime.total_hnano)
 		   )
 		   {
-		   	return (total_hnano(_systime) - total_hnano((*psysBase))) / 10000UL;
+		   	return static_cast<int64_t>(total_hnano(_systime) - total_hnano((*psysBase))) / 10000;
 		   }
 		   else
 		   {
-- 
2.43.0


From eb54a07cf4985e648fe1360115cdba69fc4ebc0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:20 +0000
Subject: [PATCH 039/116] fix: Ctime::ToXml writes a wrong time zone west of
 Greenwich

The offset was unsigned, and the minutes of a zone were dropped.  The
milliseconds of times before 1970 were wrong.
---
 src/mg/core/nx/ctime.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/mg/core/nx/ctime.cpp b/src/mg/core/nx/ctime.cpp
index d917641..cb9d0f3 100644
--- a/src/mg/core/nx/ctime.cpp
+++ b/src/mg/core/nx/ctime.cpp
@@ -329,6 +329,7 @@ Cstring Ctime::get_MillisecondsString() const
 	Cstring t(_T(""));
 	
 	uint64_t mx = total_hnano(_systime);
+		 mx += 62135596800ull * 10000000ull; //since year 1, times before 1970 count up too
 		 mx %= 10000000ull; //find hnano
 		 mx /= 10000ull;    //transform to milly
 
@@ -367,7 +368,7 @@ Cstring Ctime::ToXml() const
 	tmp += _T(".");
 	tmp += get_MillisecondsString();
 
-	uint64_t offset = GetUTCOffset() / 60;
+	int64_t offset = GetUTCOffset();
 
 	if (!_local)
 		offset = 0;
@@ -383,12 +384,14 @@ Cstring Ctime::ToXml() const
 		}
 
 
-		if (offset < 10)
+		if (offset / 60 < 10)
 			tmp += _T("0");
 
-		tmp += offset;
+		tmp += offset / 60;
 
-		tmp += _T(":00");
+		tmp += (offset % 60 < 10) ? _T(":0") : _T(":");
+
+		tmp += offset % 60;
 	}
 	else
 	{
-- 
2.43.0


From b9e4c6c21befde9868c76e85dda1bb12fa48d329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:20 +0000
Subject: [PATCH 040/116] fix: create_directory fails for a directory that
 exists

It compared the result of mkdir, which is -1, with EEXIST.
---
 src/mg/core/nx/util.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/mg/core/nx/util.cpp b/src/mg/core/nx/util.cpp
index 81d9934..306c1b5 100644
--- a/src/mg/core/nx/util.cpp
+++ b/src/mg/core/nx/util.cpp
@@ -21,6 +21,7 @@
  *****************************************************************************/
 #include "../../exception.h"
 
+#include <errno.h>
 #include <stdlib.h>
 #include <sys/stat.h>
 
@@ -55,8 +56,15 @@ void delete_file(const TCHAR* pszname)
 void create_directory(const TCHAR* pszname)
 {
     int r = mkdir(pszname , S_IRWXU | S_IRWXG | S_IROTH | S_IXOTH);
-    if(EEXIST != r)
-        MGCHECK(r);
+    if(0 != r && EEXIST == errno)
+    {
+        //what is there already has to be a directory
+        struct stat st;
+        if(0 == stat(pszname, &st) && S_ISDIR(st.st_mode))
+            return;
+        errno = EEXIST;
+    }
+    MGCHECK(r);
 }
 
 __MGCORE_END_NAMESPACE
-- 
2.43.0


From c0c2078e60b2bf9360f0a579c9c952733ebf6b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:31 +0000
Subject: [PATCH 041/116] fix: the parts and the total of the current Ctime are
 of different seconds

They came from two readings of the clock, at the turn of a second the text
was wrong by a second.
---
 src/mg/core/nx/ctime.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mg/core/nx/ctime.cpp b/src/mg/core/nx/ctime.cpp
index cb9d0f3..37f0822 100644
--- a/src/mg/core/nx/ctime.cpp
+++ b/src/mg/core/nx/ctime.cpp
@@ -95,8 +95,6 @@ void  Ctime::ResetToNow(bool local)
 	_local = local;
 	_offset = 0;
 	
-	time_t tt = time(NULL);
-
 	timespec ts;
 
 	int r = clock_gettime(CLOCK_REALTIME, &ts);
@@ -104,6 +102,8 @@ void  Ctime::ResetToNow(bool local)
 
 	_systime.total_hnano = ts.tv_sec * 10000000ull + ts.tv_nsec / 100ull;
 
+	time_t tt = ts.tv_sec;
+
 	tm stm;
         tm * pstm(0);
 
-- 
2.43.0


From cb589b1269dd8f1ce72b1405e3ca4a145b06f709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:01 +0000
Subject: [PATCH 042/116] fix: Ctime::MilliSeconds drops the milliseconds
 between the current and a built time

---
 src/mg/core/nx/ctime.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/mg/core/nx/ctime.cpp b/src/mg/core/nx/ctime.cpp
index 37f0822..6185ae9 100644
--- a/src/mg/core/nx/ctime.cpp
+++ b/src/mg/core/nx/ctime.cpp
@@ -71,6 +71,16 @@ inline uint64_t total_hnano(const SYSTEMTIME & systime)
 }
 
 
+//the part of a second
+inline int64_t fraction_hnano(const SYSTEMTIME & systime)
+{
+	if(UINT64_MAX == systime.total_hnano)
+		return systime.wMilliseconds * 10000LL;
+
+	return systime.total_hnano % 10000000ULL;
+}
+
+
 int64_t Ctime::_GetUTCOffset()
 {
 
@@ -199,7 +209,9 @@ int64_t Ctime::MilliSeconds(const SYSTEMTIME * psysBase) const
 		   }
 		   else
 		   {
-		   	return (total_seconds(_systime) - total_seconds((*psysBase))) * 1000; 
+		   	int64_t diff = total_seconds(_systime) - total_seconds((*psysBase));
+
+		   	return (diff * 10000000LL + fraction_hnano(_systime) - fraction_hnano((*psysBase))) / 10000;
 
 		   }
 	
-- 
2.43.0


From f7c969abca815c37746c421837c0e0402b7f66e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:58 +0000
Subject: [PATCH 043/116] fix: subtracting time codes never borrows from the
 next larger unit

---
 src/mg/media/WaveParser.h | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/mg/media/WaveParser.h b/src/mg/media/WaveParser.h
index fe6d8cd..7608143 100644
--- a/src/mg/media/WaveParser.h
+++ b/src/mg/media/WaveParser.h
@@ -339,44 +339,45 @@ public:
 	{
 		TC tc;
 		
-		DWORD dwFR = 0;
-		long lF  = (_dwFrames - rhs._dwFrames);
+		const long nF = _nFrames;
+		long dwFR = 0;
+		long lF  = static_cast<long>(_dwFrames) - static_cast<long>(rhs._dwFrames);
 		if(0 > lF)
 		{
 			lF = (-1)*lF;
 
-			dwFR = lF/25 + 1;
-			tc._dwFrames = _nFrames - lF%_nFrames;
+			dwFR = (lF + nF - 1)/nF;
+			tc._dwFrames = (nF - lF%nF)%nF;
 		}
 		else
 			tc._dwFrames = lF;
 
-		DWORD dwSR = 0;
-		long lS  = (_dwSeconds - rhs._dwSeconds - dwFR);
+		long dwSR = 0;
+		long lS  = static_cast<long>(_dwSeconds) - static_cast<long>(rhs._dwSeconds) - dwFR;
 		if(0 > lS)
 		{
 			lS = (-1)*lS;
 
-			dwSR = lS/60 + 1;
-			tc._dwSeconds = 60 - lS%60;
+			dwSR = (lS + 59)/60;
+			tc._dwSeconds = (60 - lS%60)%60;
 		}
 		else
 			tc._dwSeconds = lS;
 
 
-		DWORD dwMR = 0;
-		long lM  = (_dwMinutes - rhs._dwMinutes - dwSR);
+		long dwMR = 0;
+		long lM  = static_cast<long>(_dwMinutes) - static_cast<long>(rhs._dwMinutes) - dwSR;
 		if(0 > lM)
 		{
 			lM = (-1)*lM;
 
-			dwMR = lM/60 + 1;
-			tc._dwMinutes = 60 - lM%60;
+			dwMR = (lM + 59)/60;
+			tc._dwMinutes = (60 - lM%60)%60;
 		}
 		else
 			tc._dwMinutes = lM;
 
-		long lH  = (_dwHours - rhs._dwHours - dwMR);
+		long lH  = static_cast<long>(_dwHours) - static_cast<long>(rhs._dwHours) - dwMR;
 		if(0 > lH)
 		{
 			if(-23 < lH)
-- 
2.43.0


From 4fd8c3c079be622d64a0199d4fe3d4729d431d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:34 +0000
Subject: [PATCH 044/116] fix: the sizes of the samples are lost when all of
 them are the same

---
 src/mg/media/mp4write.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mg/media/mp4write.h b/src/mg/media/mp4write.h
index 3acccdd..e803307 100644
--- a/src/mg/media/mp4write.h
+++ b/src/mg/media/mp4write.h
@@ -667,13 +667,17 @@ protected:
 		mp4w.write_box(stsz);
 
 		//if(_has_size)
-			mp4w.write_uint(0x00);	
+			//all the samples share one size: no table follows
+			if(!_has_size && _samples.size())
+				sample_size = static_cast<uint32_t>(_samples[0].size);
+
+			mp4w.write_uint(sample_size);	
 		//else
 		//	mp4w.write_uint(_samples[0].size);
 
 		mp4w.write_uint(ST_U32(_samples.size()));
 
-		if(_has_size)
+		if(!sample_size)
 		{
 			for(uint32_t i = 0; i < _samples.size(); i++)
 			{
-- 
2.43.0


From 1928d44345c3a3c17039a5a01acce233f94cc4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:54 +0000
Subject: [PATCH 045/116] fix: the time table of a track with one sample
 describes two

---
 src/mg/media/mp4write.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mg/media/mp4write.h b/src/mg/media/mp4write.h
index e803307..4fa6928 100644
--- a/src/mg/media/mp4write.h
+++ b/src/mg/media/mp4write.h
@@ -477,7 +477,9 @@ protected:
 
 		if(_samples.size() || !_allow_empty_stream)
 		{
-			current_count++;
+			//the last sample lasts as long as the one before
+			if(1 != _samples.size())
+				current_count++;
 
 			mp4w.write_uint(static_cast<uint32_t>(current_count));
 			mp4w.write_uint(sample_delta);
-- 
2.43.0


From 5f1d8149c772d4f902f675313592b378bc8a2f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:54 +0000
Subject: [PATCH 046/116] fix: the constraint flags of the profile are combined
 to a boolean in avcC

---
 src/mg/media/mp4write.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mg/media/mp4write.h b/src/mg/media/mp4write.h
index 4fa6928..452e013 100644
--- a/src/mg/media/mp4write.h
+++ b/src/mg/media/mp4write.h
@@ -1845,10 +1845,10 @@ public:
 		                               avcc.AVCProfileIndication  = sequence.profile_idc;
 									   avcc.profile_compatibility = 
 											  sequence.constraint_set0_flag << 7 
-										   || sequence.constraint_set1_flag << 6
-										   || sequence.constraint_set2_flag << 5
-										   || sequence.constraint_set3_flag << 4
-										   || sequence.reserved_zero_bits;
+										   | sequence.constraint_set1_flag << 6
+										   | sequence.constraint_set2_flag << 5
+										   | sequence.constraint_set3_flag << 4
+										   | sequence.reserved_zero_bits;
 									   avcc.AVCLevelIndication = sequence.level_idc;
 									   avcc.lengthSizeMinusOne = 3;
 
-- 
2.43.0


From c33c1e79510c97007ebe32966ce4c63cd5088a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:54 +0000
Subject: [PATCH 047/116] fix: the size of field coded or cropped video is
 wrong

---
 src/mg/media/mp4write.h | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/mg/media/mp4write.h b/src/mg/media/mp4write.h
index 452e013..ab45b36 100644
--- a/src/mg/media/mp4write.h
+++ b/src/mg/media/mp4write.h
@@ -1861,7 +1861,19 @@ public:
 
 
 		 width_i  = (16 * (sequence.pic_width_in_mbs_minus1 + 1));
-    	 height_i = (16 * (sequence.pic_height_in_map_units_minus1 + 1));
+    	 //the map units of field coded pictures are two macroblocks high
+    	 height_i = (16 * (sequence.pic_height_in_map_units_minus1 + 1)) * (2 - sequence.frame_mbs_only_flag);
+
+		 if(sequence.frame_cropping_flag)
+		 {
+			 //below the high profiles it is always 4:2:0
+			 const uint32_t chroma = (sequence.profile_idc >= 100)?sequence.chroma_format_idc:1;
+			 const uint32_t crop_x = (1 == chroma || 2 == chroma)?2:1;
+			 const uint32_t crop_y = ((1 == chroma)?2:1) * (2 - sequence.frame_mbs_only_flag);
+
+			 width_i  -= crop_x * (sequence.frame_crop_left_offset + sequence.frame_crop_right_offset);
+			 height_i -= crop_y * (sequence.frame_crop_top_offset  + sequence.frame_crop_bottom_offset);
+		 }
 
 		 avcc.put(var_bs);
 
-- 
2.43.0


From b786d25f37e802e7b90bd16bb2af40cbb2163093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:54 +0000
Subject: [PATCH 048/116] fix: streams get out of sync when the one presented
 first is not decoded first

---
 src/mg/media/mp4write.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/mg/media/mp4write.h b/src/mg/media/mp4write.h
index ab45b36..e1283f5 100644
--- a/src/mg/media/mp4write.h
+++ b/src/mg/media/mp4write.h
@@ -2305,6 +2305,13 @@ public:
 
 		uint64_t start_less = _streams[stream]->get_decoding_start_time();
 
+		//the stream presented first is not always the one decoded first
+		for(uint32_t i = 0; i < _streams.size(); i++)
+		{
+			if(_streams[i]->get_decoding_start_time() < start_less)
+				start_less = _streams[i]->get_decoding_start_time();
+		}
+
 		uint64_t min_diff = 0;//100000ui64;
 
 		for(uint32_t i = 0; i < _streams.size(); i++)
-- 
2.43.0


From 655ab485cfb7d727e4b2bab09d6f79c70305ce30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:54 +0000
Subject: [PATCH 049/116] fix: samples that wait for a stream that ended
 earlier are lost

---
 src/mg/media/mp4mux.h   |  2 ++
 src/mg/media/mp4write.h | 11 +++++++++++
 2 files changed, 13 insertions(+)

diff --git a/src/mg/media/mp4mux.h b/src/mg/media/mp4mux.h
index 1bf45e2..b849303 100644
--- a/src/mg/media/mp4mux.h
+++ b/src/mg/media/mp4mux.h
@@ -363,6 +363,8 @@ public:
 
 	virtual void end()
 	{
+		_write.write_queued(_body);
+
 		_body.close();
 
 		_write.compute_auto_decoding_time();
diff --git a/src/mg/media/mp4write.h b/src/mg/media/mp4write.h
index e1283f5..8bc87de 100644
--- a/src/mg/media/mp4write.h
+++ b/src/mg/media/mp4write.h
@@ -2197,6 +2197,17 @@ public:
 
 	}
 
+	/*
+	writes the samples still waiting for the other streams
+	*/
+	virtual void write_queued(CMP4W & mp4w)
+	{
+		bool over(false);
+
+		for(uint32_t i = 0; i < _streams.size(); i++)
+			_streams[i]->write_samples(INT64_MAX, mp4w, over, _use_composition_in_distance);
+	}
+
 	virtual void write_ftyp(CMP4W &mp4w, uint32_t type = box_ftyp)
 	{
 		mp4w.write_child_box(box_ftyp, _ftyp);
-- 
2.43.0


From f28c46beacdb43de203c6324e1d81d94759432a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:29 +0000
Subject: [PATCH 050/116] fix: the duration of a track ignores the order of
 presentation

---
 src/mg/media/mp4write.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/mg/media/mp4write.h b/src/mg/media/mp4write.h
index 8bc87de..68f6862 100644
--- a/src/mg/media/mp4write.h
+++ b/src/mg/media/mp4write.h
@@ -1024,8 +1024,7 @@ public:
 	uint64_t get_duration() const
 	{
 		if(_samples.size() )
-			return _samples[_samples.size() - 1].composition
-			     - _samples[0].composition;
+			return _sample_max - _sample_min;//the last one written may be presented earlier
 
 		if(_allow_empty_stream)
 			return 0;
-- 
2.43.0


From f058eacfb8ec4df9fee64acbd2d4cbae3b523ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:33 +0000
Subject: [PATCH 051/116] fix: reading a file whose first decoded sample is not
 presented first reads out of bounds

---
 src/mg/media/mp4parse.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mg/media/mp4parse.h b/src/mg/media/mp4parse.h
index 4844c4c..5952b9a 100644
--- a/src/mg/media/mp4parse.h
+++ b/src/mg/media/mp4parse.h
@@ -971,7 +971,7 @@ class CMP4TimeManager
 				return;
 			}
 
-			while(n.composition_time < comp[idx - 1].composition_time)
+			while(0 < idx && n.composition_time < comp[idx - 1].composition_time)
 			{
 				stack.push(comp[--idx]);
 			}
-- 
2.43.0


From 2dcfa4e24bfa9294604c5f9bcbcbbe2ecc975228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:28 +0000
Subject: [PATCH 052/116] fix: a time inside of the last frame of a reordered
 stream finds the first frame

---
 src/mg/media/mp4parse.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mg/media/mp4parse.h b/src/mg/media/mp4parse.h
index 5952b9a..033101f 100644
--- a/src/mg/media/mp4parse.h
+++ b/src/mg/media/mp4parse.h
@@ -1253,8 +1253,8 @@ public:
 			    it != _composition_2sample.end()
 			 && time <= it->composition_time);
 
-		if(!found)
-			return 0;
+		if(!found) //after the last composition time
+			return _composition_2sample.empty()?0:_composition_2sample.back().sample_number;
 
 		if(it == _composition_2sample.begin())
 			return 0;
-- 
2.43.0


From 76661f6cc110c69efcecc9614a34c125fa633f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:28 +0000
Subject: [PATCH 053/116] fix: the time of the first presented frame finds the
 first decoded frame

---
 src/mg/media/mp4parse.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mg/media/mp4parse.h b/src/mg/media/mp4parse.h
index 033101f..df311b8 100644
--- a/src/mg/media/mp4parse.h
+++ b/src/mg/media/mp4parse.h
@@ -1257,7 +1257,7 @@ public:
 			return _composition_2sample.empty()?0:_composition_2sample.back().sample_number;
 
 		if(it == _composition_2sample.begin())
-			return 0;
+			return it->sample_number;
 
 		_ASSERTE(it != _composition_2sample.begin());
 
-- 
2.43.0


From 21be9c877d55ba63f1c90289a426349cbdf73df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:59 +0000
Subject: [PATCH 054/116] fix: the time of a sample finds the sample before it

---
 src/mg/media/mp4parse.h | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/mg/media/mp4parse.h b/src/mg/media/mp4parse.h
index df311b8..defe74e 100644
--- a/src/mg/media/mp4parse.h
+++ b/src/mg/media/mp4parse.h
@@ -2317,10 +2317,21 @@ public:
 		return (1000UL * 10000UL * duration) / _mdhd.get_timescale() ;
 
 	}
+	//The last tick of the media that has not a later time. Times are cut to
+	//100 ns, so this finds the sample a time was taken from.
+	uint64_t get_ticks(const uint64_t time) const
+	{
+		uint64_t ticks = (time + 1) * _mdhd.get_timescale() + (1000UL * 10000UL - 1);
+
+		ticks /= (1000UL * 10000UL);
+
+		return (0 < ticks)?ticks - 1:0;
+	}
+
 	uint64_t get_IFrame_number(uint64_t time)
 	{	  
 
-		 uint64_t composition_time = time * _mdhd.get_timescale() / (1000UL * 10000UL);
+		 uint64_t composition_time = get_ticks(time);
 
 		 return _time_manager.get_IFrame_number(composition_time);
 	}
@@ -2336,13 +2347,13 @@ public:
 
 	uint64_t get_decoding_sample_number(const uint64_t time) const
 	{
-		uint64_t dtime = time * _mdhd.get_timescale() / (1000UL * 10000UL);
+		uint64_t dtime = get_ticks(time);
 		return _time_manager.get_decoding_sample_number(dtime);
 	}
 
 	uint64_t get_composition_sample_number(const uint64_t time) const
 	{
-		uint64_t dtime  = time * _mdhd.get_timescale() / (1000UL * 10000UL);
+		uint64_t dtime  = get_ticks(time);
 		//uint64_t sample = _time_manager.get_decoding_sample_number(dtime);
 		uint64_t sample = _time_manager.get_composition_sample_number(dtime);
 
-- 
2.43.0


From 57ffc4e41544778a3f777a7a875aec5d11380443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:38 +0000
Subject: [PATCH 055/116] fix: the last byte of a nal unit is kept when it is
 0x03

---
 src/mg/media/h264nal.h | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/mg/media/h264nal.h b/src/mg/media/h264nal.h
index ef38584..6369033 100644
--- a/src/mg/media/h264nal.h
+++ b/src/mg/media/h264nal.h
@@ -76,9 +76,6 @@ protected:
 		{
 			_ASSERTE((idx + 1) >= NumBytesInRBSP);
 
-			if(idx + 1 == NumBytesInNALunit && 0x03 == bit_stream.nextbits(8))
-				break;
-			
 			if( (idx + 2) < NumBytesInNALunit  && 0x000003 == bit_stream.nextbits(24))
 			{
 				p_nal[NumBytesInRBSP++] = 0x00;
-- 
2.43.0


From 6d805fdf8c826d634a33cca5206ca4918bb2000a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:38 +0000
Subject: [PATCH 056/116] fix: signed exp-golomb values are not rounded to a
 float

---
 src/mg/media/mp4/h264.fl | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/mg/media/mp4/h264.fl b/src/mg/media/mp4/h264.fl
index d3508ec..fa9f8b8 100644
--- a/src/mg/media/mp4/h264.fl
+++ b/src/mg/media/mp4/h264.fl
@@ -22,7 +22,7 @@ inline unsigned int exp_ue_golomb(IBitstream &var_bs)
        return 0;
 
    unsigned int trailer = var_bs.getbits(leadingZeroBits);
-   unsigned int exp     = static_cast<int>(pow(2.0, leadingZeroBits));
+   unsigned int exp     = 1u << leadingZeroBits;
 
    _ASSERTE(exp > 1);
 
@@ -32,10 +32,9 @@ inline unsigned int exp_ue_golomb(IBitstream &var_bs)
 inline int exp_se_golomb(IBitstream &var_bs)
 {
      
-    float k = static_cast<float>(exp_ue_golomb(var_bs));
-    int   q = (static_cast<int>(k)) + 1;
-	  q = static_cast<int>(pow(-1.0, q));
-    return static_cast<int>(q*ceil(k/2));
+    unsigned int k = exp_ue_golomb(var_bs);
+    int          v = static_cast<int>(k / 2 + k % 2);
+    return (k % 2) ? v : -v;
    
     
 }
-- 
2.43.0


From 5c514444597a3375e07dd30bb8dfdbf5e4ed8506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:38 +0000
Subject: [PATCH 057/116] fix: sequence parameter sets with scaling lists and
 of the cavlc 4:4:4 profile are read

---
 src/mg/media/mp4/h264.fl | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/mg/media/mp4/h264.fl b/src/mg/media/mp4/h264.fl
index fa9f8b8..ce8d161 100644
--- a/src/mg/media/mp4/h264.fl
+++ b/src/mg/media/mp4/h264.fl
@@ -39,6 +39,17 @@ inline int exp_se_golomb(IBitstream &var_bs)
     
 }
 
+/*
+7.3.2.1.1.1 a scaling list ends when its next scale is zero
+*/
+inline void skip_scaling_list(IBitstream &var_bs, unsigned int size)
+{
+    int next_scale = 8;
+
+    for(unsigned int j = 0; j < size && next_scale; j++)
+        next_scale = (next_scale + exp_se_golomb(var_bs) + 256) % 256;
+}
+
 %.c}
 
 class hrd_parameters
@@ -194,7 +205,7 @@ class H264Sequence
   unsigned int num_ref_frames_in_pic_order_cnt_cycle = 0;
 	
 
-  if(profile_idc >= 100)
+  if(profile_idc >= 100 || profile_idc == 44)
   { //high profile
 
       %g{chroma_format_idc    = exp_ue_golomb(var_bs);%g}
@@ -206,7 +217,19 @@ class H264Sequence
        %g{bit_depth_chroma    = exp_ue_golomb(var_bs);%g}
         unsigned int(1) transform_bypass;
 
-	unsigned int(1) decode_scaling_matrix = 0;//if 1 TODO
+	%p{decode_scaling_matrix = 0;%p}
+	unsigned int(1) decode_scaling_matrix;
+
+	%g{
+	   if(decode_scaling_matrix)
+	   {
+	      unsigned int lists = (chroma_format_idc != 3) ? 8 : 12;
+
+	      for(unsigned int l = 0; l < lists; l++)
+	         if(var_bs.getbits(1))
+	            skip_scaling_list(var_bs, (l < 6) ? 16 : 64);
+	   }
+	%g}
      
   }
 
-- 
2.43.0


From 4316f5d7bb0300770a2e551d0f70282a9afabe24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:38 +0000
Subject: [PATCH 058/116] fix: the extension of a picture parameter set is
 found by its trailing bits

---
 src/mg/media/mp4/h264.fl | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/src/mg/media/mp4/h264.fl b/src/mg/media/mp4/h264.fl
index ce8d161..f41fbe0 100644
--- a/src/mg/media/mp4/h264.fl
+++ b/src/mg/media/mp4/h264.fl
@@ -385,12 +385,15 @@ class pic_parameter_set_rbsp
 
 	
 	/////extended///////
-	uint64_t end_size = numbits() + (numbits() % 8);
+	uint64_t end_size = numbits();
 	unsigned int extended = 0;
 
-	%g{ if(_size && 
-	             ( ( (end_size) - start_size) / 8) < _size
-			) 
+	%g{
+	   //more_rbsp_data: there is more than the trailing bits
+	   uint64_t left = (uint64_t)_size * 8;
+	            left = (left > (end_size - start_size)) ? (left - (end_size - start_size)) : 0;
+
+	   if(left > 8 || (left && var_bs.nextbits((unsigned int)left) != (1u << (left - 1))))
 			extended = 1;
 	%g}
 
@@ -411,20 +414,12 @@ class pic_parameter_set_rbsp
                 {
                     if( i < 6 )
                     {
-						%g{
-						  unsigned int j = 0;
-						   for(j = 0; j < 16; j++)
-						     exp_se_golomb(var_bs);
-						%g}
+						%g{skip_scaling_list(var_bs, 16);%g}
                         
                     }
                     else
                     {
-                        %g{
-						  unsigned int j = 0;
-						   for(j = 0; j < 64; j++)
-						     exp_se_golomb(var_bs);
-						%g}
+                        %g{skip_scaling_list(var_bs, 64);%g}
                     }
                 }
             }
-- 
2.43.0


From f81f26d9b03c2cbbbad0afdba6ffbceb6d5a577b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:38 +0000
Subject: [PATCH 059/116] fix: slice types 5 to 9 are read like 0 to 4

---
 src/mg/media/mp4/h264.fl | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mg/media/mp4/h264.fl b/src/mg/media/mp4/h264.fl
index f41fbe0..b98ec28 100644
--- a/src/mg/media/mp4/h264.fl
+++ b/src/mg/media/mp4/h264.fl
@@ -721,16 +721,16 @@ class slice_header
       
       %g}
 
-      if( slice_type == 1 ) /*B*/
+      if( (slice_type % 5) == 1 ) /*B*/
          unsigned int(1) direct_spatial_mv_pred_flag;
 
-      if( slice_type == 0 || slice_type == 3 || slice_type == 1 ) /* P || SP || B */
+      if( (slice_type % 5) == 0 || (slice_type % 5) == 3 || (slice_type % 5) == 1 ) /* P || SP || B */
       {
 	unsigned int(1) num_ref_idx_active_override_flag;
         
 		%g{if( num_ref_idx_active_override_flag ) {
 			num_ref_idx_l0_active_minus1  = exp_ue_golomb(var_bs);
-			if( slice_type == 1 ) /*B*/
+			if( (slice_type % 5) == 1 ) /*B*/
 				num_ref_idx_l1_active_minus1  = exp_ue_golomb(var_bs);
 		
 		}%g}
-- 
2.43.0


From fd6750569380b9bcb213da0b05ea4fe12e96ab0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:38 +0000
Subject: [PATCH 060/116] fix: picture timing uses the vcl hrd parameters and
 the default time offset

---
 src/mg/media/mp4/h264.fl | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/mg/media/mp4/h264.fl b/src/mg/media/mp4/h264.fl
index b98ec28..4ac84f7 100644
--- a/src/mg/media/mp4/h264.fl
+++ b/src/mg/media/mp4/h264.fl
@@ -920,11 +920,15 @@ class pic_timing(const H264Sequence sequence)
             if(sequence->VUI->vcl_hrd_parameters_present_flag)
                   CpbDpbDelaysPresentFlag = 1;
                   
-            if(sequence->VUI->HRD)
+            const hrd_parameters * hrd = sequence->VUI->nal_hrd_parameters_present_flag ? sequence->VUI->HRD : sequence->VUI->VLC_HRD;
+
+            time_offset_length = 24;//when there are no hrd parameters
+
+            if(CpbDpbDelaysPresentFlag && hrd)
             {
-                  time_offset_length = sequence->VUI->HRD->time_offset_length;
-                  cpb_removal_delay_length  = sequence->VUI->HRD->cpb_removal_delay_length_minus1 + 1;
-                  dpb_output_delay_length  = sequence->VUI->HRD->dpb_output_delay_length_minus1 + 1;
+                  time_offset_length = hrd->time_offset_length;
+                  cpb_removal_delay_length  = hrd->cpb_removal_delay_length_minus1 + 1;
+                  dpb_output_delay_length  = hrd->dpb_output_delay_length_minus1 + 1;
             }              
                   
                   
-- 
2.43.0


From 6df8e6d1278cf75a25137c2068797216e92f7249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:52 +0000
Subject: [PATCH 061/116] fix: the optional parts of a clock timestamp are read
 when their flags are set

---
 src/mg/media/mp4/h264.fl | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mg/media/mp4/h264.fl b/src/mg/media/mp4/h264.fl
index 4ac84f7..0b32334 100644
--- a/src/mg/media/mp4/h264.fl
+++ b/src/mg/media/mp4/h264.fl
@@ -996,13 +996,13 @@ class pic_timing(const H264Sequence sequence)
 		unsigned int(5) hours_value[[i]];
       } else {     
 			unsigned int(1) seconds_flag[[i]];
-      if( seconds_flag ) {     
+      if( seconds_flag[i] ) {     
 			unsigned int(6) seconds_value[[i]];
             unsigned int(1) minutes_flag[[i]];
-           if( minutes_flag ) {     
+           if( minutes_flag[i] ) {     
                unsigned int(6) minutes_value[[i]];
                unsigned int(1) hours_flag[[i]];
-              if( hours_flag )     
+              if( hours_flag[i] )     
                   unsigned int(5) hours_value[[i]];
             }     
           }     
-- 
2.43.0


From e58590cfc9c61e1ba6464e6665d57b73f3475565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:42 +0000
Subject: [PATCH 062/116] fix: the cropping of the cavlc 4:4:4 profile uses its
 chroma format

---
 src/mg/media/mp4write.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mg/media/mp4write.h b/src/mg/media/mp4write.h
index 68f6862..7a1a78c 100644
--- a/src/mg/media/mp4write.h
+++ b/src/mg/media/mp4write.h
@@ -1866,7 +1866,7 @@ public:
 		 if(sequence.frame_cropping_flag)
 		 {
 			 //below the high profiles it is always 4:2:0
-			 const uint32_t chroma = (sequence.profile_idc >= 100)?sequence.chroma_format_idc:1;
+			 const uint32_t chroma = (sequence.profile_idc >= 100 || 44 == sequence.profile_idc)?sequence.chroma_format_idc:1;
 			 const uint32_t crop_x = (1 == chroma || 2 == chroma)?2:1;
 			 const uint32_t crop_y = ((1 == chroma)?2:1) * (2 - sequence.frame_mbs_only_flag);
 
-- 
2.43.0


From d87bd8048bb099c2aba108780c0632349d7b4075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:43 +0000
Subject: [PATCH 063/116] fix: the segment index keeps presentation times of
 more than 32 bits

---
 src/mg/media/mp4fragmented.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/mg/media/mp4fragmented.h b/src/mg/media/mp4fragmented.h
index a94954e..28cc49f 100644
--- a/src/mg/media/mp4fragmented.h
+++ b/src/mg/media/mp4fragmented.h
@@ -434,9 +434,15 @@ public:
                             
                             sidx.reference_ID = _tfhd.track_ID;
                             sidx.timescale = U64_ST(_timescale);//1000UL * 10000UL;
-                            sidx.set_earliest_presentation_time(
-                                    _trun.get_item(0).sample_composition_time_offset + _baseMediaDecodeTime
-                            );
+                            const uint64_t earliest_presentation_time = _trun.get_item(0).sample_composition_time_offset + _baseMediaDecodeTime;
+
+                            if(UINT32_MAX < earliest_presentation_time) //does not fit in version 0
+                            {
+                                sidx.set_version(1);
+                                sidx_referenced_size_position += 8;
+                            }
+
+                            sidx.set_earliest_presentation_time(earliest_presentation_time);
                             
                             sidx.set_first_offset(0);
 
-- 
2.43.0


From c260446ce7ee43d9c05ef20bba4aa3895d8d3a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:33 +0000
Subject: [PATCH 064/116] fix: a fragment starts with the key frame presented
 at its start time

---
 src/mg/media/mp4fragmented.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/mg/media/mp4fragmented.h b/src/mg/media/mp4fragmented.h
index 28cc49f..de95b54 100644
--- a/src/mg/media/mp4fragmented.h
+++ b/src/mg/media/mp4fragmented.h
@@ -602,7 +602,15 @@ public:
 
 		//////////////////////////////////////////////////////////////////////
 
-		reader.move(start_time, stream_id);
+		uint64_t position = start_time;
+
+		//a random access point is found by its decoding time, start_time is a presentation time
+		if(reader.has_random_access_point(stream_id) && stream_offset <= start_time)
+			position = reader.get_decoding_time(
+				  reader.get_composition_sample_number(start_time - stream_offset, stream_id)
+				, stream_id);
+
+		reader.move(position, stream_id);
 
 #ifdef _DEBUG
 		
-- 
2.43.0


From 0d6efdf25c5ce675aefafcf5f516f6995b554336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:37 +0000
Subject: [PATCH 065/116] fix: the duration of an initialization segment is in
 its time scale and may have more than 32 bits

---
 src/mg/media/mp4fragmented.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/mg/media/mp4fragmented.h b/src/mg/media/mp4fragmented.h
index de95b54..627017c 100644
--- a/src/mg/media/mp4fragmented.h
+++ b/src/mg/media/mp4fragmented.h
@@ -770,7 +770,14 @@ public:
 					output_stream.open_box(box_MVEX);
 
 						MovieExtendsHeaderBox mehd;
-											  mehd.set_fragment_duration(duration);
+
+											  //in the time scale of the movie header
+											  const uint64_t fragment_duration = TIMESCALE(duration, time_scale);
+
+											  if(UINT32_MAX < fragment_duration)
+												  mehd.set_version(1);
+
+											  mehd.set_fragment_duration(fragment_duration);
 
 											  output_stream.write_child_box(box_MEHD, mehd);
 
-- 
2.43.0


From 53ef614a7e90142a3642d86e89a662c5e6d1a9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:10 +0000
Subject: [PATCH 066/116] fix: a box with a 64 bit size is skipped up to its
 end

---
 src/mg/media/mp4parse.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mg/media/mp4parse.h b/src/mg/media/mp4parse.h
index defe74e..7b16763 100644
--- a/src/mg/media/mp4parse.h
+++ b/src/mg/media/mp4parse.h
@@ -576,13 +576,17 @@ public:
 	void skip_current()
 	{
 		_ASSERTE(_current_box.get_size() > 8);
-		skipbytes(_current_box.get_size() - 8);
+		set_position(get_box_position_end()); //the header may have more than 8 bytes
 	}
 
 	const Box & get_box() const {return _current_box;}
 	const FullBox & get_full_box() const {return _current_full_box;}
 	const uint64_t get_box_position() const {return _box_position;}
-	const uint64_t get_box_position_end() const {return _box_position + _current_box.get_size();}
+	const uint64_t get_box_position_end() const
+	{
+		//the size of a uuid box does not count its extended type
+		return _box_position + _current_box.get_size() + ((box_uuid == _current_box.get_type())?16:0);
+	}
 
 	const unsigned int get_last_handler_type() const{ return _last_handler_type;}
 	
-- 
2.43.0


From 8d340cf789b1a317cd6fff354d818bda028fedbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:10 +0000
Subject: [PATCH 067/116] fix: an unknown uuid box of a movie fragment is
 skipped

---
 src/mg/media/MOOFReader.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mg/media/MOOFReader.h b/src/mg/media/MOOFReader.h
index 119c09c..37e88e2 100644
--- a/src/mg/media/MOOFReader.h
+++ b/src/mg/media/MOOFReader.h
@@ -156,7 +156,7 @@ private:
 
 						}
 
-				//mp4.skip_current();
+				mp4.skip_current(); //also what is not known
 				break;
 			default:
 				unknown_box(mp4);
-- 
2.43.0


From bd3fed390835cd8b30f65b84054567f75f448ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:44 +0000
Subject: [PATCH 068/116] fix: the 32 bit times of the fragment uuid boxes are
 read

---
 src/mg/media/mp4/mp4_fragments.fl | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mg/media/mp4/mp4_fragments.fl b/src/mg/media/mp4/mp4_fragments.fl
index 2154f06..78d9edf 100644
--- a/src/mg/media/mp4/mp4_fragments.fl
+++ b/src/mg/media/mp4/mp4_fragments.fl
@@ -314,12 +314,12 @@ aligned(8) class SSFLIVE_BODY(unsigned int vers)
 		    version = vers;
 	 %g}
 	 
-	unsigned int(32)           FragmentAbsoluteTime_0;
 	if(1 == vers)
-		unsigned int(32)           FragmentAbsoluteTime;
-	unsigned int(32)           FragmentDuration_0;
+		unsigned int(32)           FragmentAbsoluteTime_0;
+	unsigned int(32)           FragmentAbsoluteTime;
 	if(1 == vers)
-		unsigned int(32)           FragmentDuration;
+		unsigned int(32)           FragmentDuration_0;
+	unsigned int(32)           FragmentDuration;
 %{
 
 	unsigned int version;
-- 
2.43.0


From 0ed4aad2e379c67c887692230411eb0ebdcf2dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:44 +0000
Subject: [PATCH 069/116] fix: a fragment is read without what was read of the
 one before

---
 src/mg/media/MOOFReader.h | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/mg/media/MOOFReader.h b/src/mg/media/MOOFReader.h
index 37e88e2..b3c0429 100644
--- a/src/mg/media/MOOFReader.h
+++ b/src/mg/media/MOOFReader.h
@@ -200,6 +200,20 @@ public:
 				mp4.set_position(0);
 		}
 
+		//nothing is left of the fragment that was read before
+		_has_bbox = false;
+		_has_tfxd = false;
+#ifdef CENC
+		_has_saio = false;
+		_has_saiz = false;
+		_has_tenc = false;
+		_has_senc = false;
+#endif
+		for(unsigned int i = 0; i < _TfrfBox.size(); i++)
+			delete _TfrfBox[i];
+
+		_TfrfBox.clear();
+
 		bool box = mp4.do_box();
 
 		if(strict)
-- 
2.43.0


From 73964b6cd0a1a559b34d04a7deb614c60ecacc9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:25 +0000
Subject: [PATCH 070/116] fix: the data of a fragment with a base data offset
 is found

---
 src/mg/media/MOOFReader.h         | 6 ++++--
 src/mg/media/mp4/mp4_fragments.fl | 4 +++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/mg/media/MOOFReader.h b/src/mg/media/MOOFReader.h
index b3c0429..4eabcf4 100644
--- a/src/mg/media/MOOFReader.h
+++ b/src/mg/media/MOOFReader.h
@@ -255,8 +255,10 @@ public:
 		
 		if(0x000001 & _trunbox.get_flags() & (!ignore_flags))
 		{
-			_ASSERTE((_trunbox.data_offset + _moof_position) == _mdat_position);
-			return (_trunbox.data_offset + _moof_position);
+			const uint64_t base = (0x000001 & _tbox.get_flags())?_tbox.get_base_data_offset():_moof_position;
+
+			_ASSERTE((_trunbox.data_offset + base) == _mdat_position);
+			return (_trunbox.data_offset + base);
 		}
 		
 
diff --git a/src/mg/media/mp4/mp4_fragments.fl b/src/mg/media/mp4/mp4_fragments.fl
index 78d9edf..593396f 100644
--- a/src/mg/media/mp4/mp4_fragments.fl
+++ b/src/mg/media/mp4/mp4_fragments.fl
@@ -86,7 +86,9 @@ aligned(8) class TrackFragmentHeaderBox extends FullBox
       
 %{
 public:
-    V64(base_data_offset);
+    //it has 64 bits in every version
+    uint64_t get_base_data_offset() const {return UI64(base_data_offset_0, base_data_offset);}
+    void set_base_data_offset(const uint64_t rhs){base_data_offset_0 = (rhs >> 32); base_data_offset = static_cast<uint32_t>(rhs);}
     
     TrackFragmentHeaderBox():
 			  base_data_offset_0(0)
-- 
2.43.0


From ef86cfb916503ecd37885e2321fb9f4f8f9568eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:42 +0000
Subject: [PATCH 071/116] fix: a file with fewer samples than the look ahead
 can be edited

---
 src/mg/media/mp4edit.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/mg/media/mp4edit.cpp b/src/mg/media/mp4edit.cpp
index 367f938..aa5b6d4 100644
--- a/src/mg/media/mp4edit.cpp
+++ b/src/mg/media/mp4edit.cpp
@@ -313,7 +313,20 @@ void CMP4EditBase::do_edit_mux(
 		{
 			
 			if(!reader.next_file_chunks(ms))
-				ALXTHROW_T(_T("cannot check first sample info."));
+			{
+				for(size_t i = 0; i < reader.stream_count(); i++)
+				{
+					if(!reader.IsValidStream(i) || reader.IsLTC(i))
+						continue;
+
+					if((info.map[i].video
+							?info.video_info[info.map[i].internal_index].next_composition
+							:info.audio_info[info.map[i].internal_index].next_composition) == INT64_MAX)
+						ALXTHROW_T(_T("cannot check first sample info."));
+				}
+
+				break; //the file ends before the look ahead does
+			}
 
             if ((ms.composition_time + static_cast<int64_t>(reader.get_stream_offset(ms.stream))) < start && discard_pre_start) //<-- loose gop position
             {
-- 
2.43.0


From c8429fd4ab1efae24afe55747a52e6f1a433c681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:10 +0000
Subject: [PATCH 072/116] fix: the first sample of a stream after the start is
 looked for

---
 src/mg/media/mp4dynamic.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mg/media/mp4dynamic.cpp b/src/mg/media/mp4dynamic.cpp
index d8720ba..46a0de5 100644
--- a/src/mg/media/mp4dynamic.cpp
+++ b/src/mg/media/mp4dynamic.cpp
@@ -330,8 +330,10 @@ void CMP4DynamicDiscreate::publish_no_random_stream(
 
 	composition += off;
 
-	while(composition < start)
+	while(composition < start && (p + 1) < reader.get_sample_count(stream))
 	{
+		p++;
+
 		if(has_composition)
 			composition =  reader.get_composition_time(p, stream);
 		else
-- 
2.43.0


From 7d743b9df090f6ce782d40aaeefc3e3452c4c247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:10 +0000
Subject: [PATCH 073/116] fix: the end of an audio stream that does not fill a
 fragment is kept by stream

---
 src/mg/media/mp4dynamic.cpp | 34 ++++++++++++++++++----------------
 src/mg/media/mp4dynamic.h   | 31 ++++++++++++++++++++++++-------
 2 files changed, 42 insertions(+), 23 deletions(-)

diff --git a/src/mg/media/mp4dynamic.cpp b/src/mg/media/mp4dynamic.cpp
index 46a0de5..bb8bc62 100644
--- a/src/mg/media/mp4dynamic.cpp
+++ b/src/mg/media/mp4dynamic.cpp
@@ -26,8 +26,10 @@ CMP4Dynamic::CMP4Dynamic(void)
 {
 	_info.file_count = 0;
 
+	_current_end = 0;
+
 	for(int i = 0; i < MAX_STREAM; i++)
-		_stream_start_offset[0];
+		_stream_start_offset[i] = 0;
 }
 
 CMP4Dynamic::~CMP4Dynamic(void)
@@ -344,25 +346,25 @@ void CMP4DynamicDiscreate::publish_no_random_stream(
 	}
 
 
-	if(UINT64_MAX != _reporting_start_time 
+	if(UINT64_MAX != _reporting_start_time[stream] 
 			&& _generate_only_full_fragment)
 	{
-		_ASSERTE(jump > _reporting_samples);
+		_ASSERTE(jump > _reporting_samples[stream]);
 		
-		uint64_t fill_jump = jump - _reporting_samples;
+		uint64_t fill_jump = jump - _reporting_samples[stream];
 
 		uint64_t t1 = computed_time(
-			                          (composition - off) - (_reporting_samples * d)
+			                          (composition - off) - (_reporting_samples[stream] * d)
 									 , stream
 									 , off
 									 );
 
-		//_ASSERTE(t1 >= _reporting_computed_start_time);
+		//_ASSERTE(t1 >= _reporting_computed_start_time[stream]);
 
-		t1 = _reporting_computed_start_time;
+		t1 = _reporting_computed_start_time[stream];
 
 
-		publish_segmented_composition_cross( _reporting_start_time
+		publish_segmented_composition_cross( _reporting_start_time[stream]
 			, t1
 			, composition
 			, computed_time(
@@ -384,7 +386,7 @@ void CMP4DynamicDiscreate::publish_no_random_stream(
 		composition += off;
 
 
-		_reporting_start_time = UINT64_MAX;
+		_reporting_start_time[stream] = UINT64_MAX;
 	}
 		
 
@@ -407,25 +409,25 @@ void CMP4DynamicDiscreate::publish_no_random_stream(
 		{
 			if(_generate_only_full_fragment)
 			{
-				_ASSERTE(UINT64_MAX == _reporting_start_time);
+				_ASSERTE(UINT64_MAX == _reporting_start_time[stream]);
 				 
-				_reporting_samples    = reader.get_sample_count(stream) - p;
+				_reporting_samples[stream]    = reader.get_sample_count(stream) - p;
 
-				uint64_t sn   = reader.get_sample_count(stream) - _reporting_samples;
+				uint64_t sn   = reader.get_sample_count(stream) - _reporting_samples[stream];
 
-				_reporting_start_time = reader.get_decoding_time(sn, stream);
+				_reporting_start_time[stream] = reader.get_decoding_time(sn, stream);
 
 				if(has_composition)
 				{
-					_reporting_start_time = reader.get_composition_time(sn, stream);
+					_reporting_start_time[stream] = reader.get_composition_time(sn, stream);
 				}
 		    				
-				_reporting_computed_start_time = computed_time(_reporting_start_time
+				_reporting_computed_start_time[stream] = computed_time(_reporting_start_time[stream]
 									 , stream
 									 , off
 									 );
 
-				_reporting_start_time += off;
+				_reporting_start_time[stream] += off;
 				
 				//p = reader.get_sample_count(stream); //get off
 				return;
diff --git a/src/mg/media/mp4dynamic.h b/src/mg/media/mp4dynamic.h
index 902f192..8d8cb16 100644
--- a/src/mg/media/mp4dynamic.h
+++ b/src/mg/media/mp4dynamic.h
@@ -347,13 +347,25 @@ public:
 class CMP4DynamicDiscreate : public CMP4Dynamic
 {
 	uint64_t _fragment_length;
-	uint64_t _last_fragment[64];
+	uint64_t _last_fragment[MAX_STREAM];
 	uint64_t _fragment_tolerance;
 
 	bool			 _generate_only_full_fragment; //if true we join an half fragment from one file to the following one
-    uint64_t _reporting_start_time;
-	uint64_t _reporting_computed_start_time;
-	uint64_t				 _reporting_samples;
+	//by stream
+    uint64_t _reporting_start_time[MAX_STREAM];
+	uint64_t _reporting_computed_start_time[MAX_STREAM];
+	uint64_t				 _reporting_samples[MAX_STREAM];
+
+	void init_streams()
+	{
+		for(int i = 0; i < MAX_STREAM; i++)
+		{
+			_last_fragment[i]                 = UINT64_MAX;
+			_reporting_start_time[i]          = UINT64_MAX;
+			_reporting_computed_start_time[i] = 0;
+			_reporting_samples[i]             = 0;
+		}
+	}
 protected:
 	
 	virtual void begin_stream(int stream){_last_fragment[stream] = UINT64_MAX;}
@@ -397,12 +409,17 @@ public:
 		:_fragment_length(20000000)
 		, _fragment_tolerance(260000) //less than a frame
 		, _generate_only_full_fragment(true)
-		, _reporting_start_time(UINT64_MAX)
-	{}
+	{
+		init_streams();
+	}
 
 	CMP4DynamicDiscreate(uint64_t fragment_length)
 		:_fragment_length(fragment_length)
-	{}
+		, _fragment_tolerance(260000) //less than a frame
+		, _generate_only_full_fragment(true)
+	{
+		init_streams();
+	}
 
 	void set_fragment_length(uint64_t fragment_length)
 	{_fragment_length = fragment_length;}
-- 
2.43.0


From 89eea2cf043dfa8ee16f6056883c1489d9ab9803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:10 +0000
Subject: [PATCH 074/116] fix: the segments of a delayed video stream

---
 src/mg/media/mp4dynamic.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/mg/media/mp4dynamic.cpp b/src/mg/media/mp4dynamic.cpp
index bb8bc62..5d00352 100644
--- a/src/mg/media/mp4dynamic.cpp
+++ b/src/mg/media/mp4dynamic.cpp
@@ -60,7 +60,9 @@ void CMP4Dynamic::move_to_read(  uint64_t start
 		{
 			//publish_stream
 			//TODO: use decoding start instead of start
-			uint64_t composition      = reader.get_composition_time(reader.get_IFrame_number(start, idx), idx);
+			//a presentation time
+			const uint64_t offset     = reader.get_stream_offset(idx);
+			uint64_t composition      = reader.get_composition_time(reader.get_IFrame_number(start, idx), idx) + offset;
 
 			if(UINT64_MAX == computed_start_time)
 				computed_start_time = composition;
@@ -76,16 +78,16 @@ void CMP4Dynamic::move_to_read(  uint64_t start
 				
 				publish_composition(
 				    composition
-				  , computed_time(composition
+				  , computed_time(composition - offset
 				                 , idx
-								 , reader.get_stream_offset(idx)
+								 , offset
 								 )
 				  , idx
 				);
 
 				t_composition = composition;
 
-				composition = reader.get_next_IFrame_time(idx);
+				composition = reader.get_next_IFrame_time(idx) + offset;
 			}
 
 			///DONE? TODO: MUST PUBLISH FROM LAST COMPOSITION TO THE END ???
@@ -101,7 +103,8 @@ void CMP4Dynamic::move_to_read(  uint64_t start
 				{
 					if(!reader.IsLTC(idx) && reader.has_random_access_point(idx))
 					{
-						computed_start_time = reader.get_composition_time(reader.get_IFrame_number(start, idx), idx);
+						computed_start_time = reader.get_composition_time(reader.get_IFrame_number(start, idx), idx)
+							+ reader.get_stream_offset(idx);
 						break;
 					}
 				}
-- 
2.43.0


From e3af3080da17148fa03095c9134864fcce5f57ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:10 +0000
Subject: [PATCH 075/116] fix: the last segment has the last sample

---
 src/mg/media/mp4dynamic.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/mg/media/mp4dynamic.h b/src/mg/media/mp4dynamic.h
index 8d8cb16..dbfcee4 100644
--- a/src/mg/media/mp4dynamic.h
+++ b/src/mg/media/mp4dynamic.h
@@ -199,9 +199,12 @@ protected:
 		, uint64_t total_stream_samples) const 
 	{
 		std::map<int, uint64_t> & stream_composition_end = *(const_cast<std::map<int, uint64_t> *>(&_stream_composition_end));
-		if(stream_composition_end[ms.stream] < static_cast<uint64_t>(ms.composition_time))
+		//a presentation time after the last sample
+		const uint64_t end = ms.composition_time + stream_offset + ((0 < ms.duration)?ms.duration:1);
+
+		if(stream_composition_end[ms.stream] < end)
 		{
-			stream_composition_end[ms.stream] = ms.composition_time + ms.duration;
+			stream_composition_end[ms.stream] = end;
 		}
 	}
 
-- 
2.43.0


From 9bcbb5084fd224739c1ac9ad6b321a79706a3e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:10 +0000
Subject: [PATCH 076/116] fix: the last segment of a stream ends with its last
 sample

---
 src/mg/media/mp4dynamicinfo.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mg/media/mp4dynamicinfo.h b/src/mg/media/mp4dynamicinfo.h
index bce998b..d1734de 100644
--- a/src/mg/media/mp4dynamicinfo.h
+++ b/src/mg/media/mp4dynamicinfo.h
@@ -1192,6 +1192,7 @@ public:
 		{		
 			_presentation.get_by_index(i)->AddPoint(
 					  get_stream_end(i)
+						+ this->_stream_start_offset[i]
 					, /*INT64_MAX //this is a closing point. it should never be used.
 						     //it's just there to allow computing the duration of
 						     //the real last one
-- 
2.43.0


From 3309d19754c62ab6d90aa40e62bdc90c9bb7092c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:10 +0000
Subject: [PATCH 077/116] fix: the fraction of the presentation duration of a
 DASH manifest

---
 src/mg/media/mpd_renderer.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mg/media/mpd_renderer.h b/src/mg/media/mpd_renderer.h
index 95cb3ac..19409c9 100644
--- a/src/mg/media/mpd_renderer.h
+++ b/src/mg/media/mpd_renderer.h
@@ -67,7 +67,9 @@ public:
 	
 	virtual void begin(uint64_t duration)
 	{	
-		uint64_t TNANO = duration % 1000000UL;
+		//the fraction of the second has seven digits
+		Cstring TNANO;
+		        TNANO += (10000000UL + duration % 10000000UL);
 	
 		_xml += _T("<MPD xmlns=\"urn:mpeg:dash:schema:mpd:2011\" xmlns:xsi=\"http://www.w3.org/2001/XMLSchema-instance\" ");
 		_xml += _T("profiles=\"urn:mpeg:dash:profile:isoff-live:2011\" type=\"static\" ");
@@ -80,7 +82,7 @@ public:
         _xml += _T("mediaPresentationDuration=\"PT");
 		_xml += duration / 10000000UL;
 		_xml += _T(".");
-		_xml += TNANO;
+		_xml += (static_cast<const TCHAR *>(TNANO) + 1);
 		_xml += _T("S\" minBufferTime=\"PT3S\">\r\n");
 
 		_xml += _T("\t<Period>\r\n");
@@ -93,6 +95,8 @@ public:
 		_codecs = _T("");
 		_rappresentation_xml = _T("");
 		_points_xml = _T("");
+		_maxWidth   = 0;
+		_maxHeight  = 0;
 
 		_current_stream = psz_name;
 		_stype = stype;
-- 
2.43.0


From 407a7a09b0adecbf9f353ee6d441362b87d74495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:36 +0000
Subject: [PATCH 078/116] fix: the constraint flags of the decoder
 configuration

---
 src/mg/media/mp4write.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mg/media/mp4write.h b/src/mg/media/mp4write.h
index 7a1a78c..0bdc5d2 100644
--- a/src/mg/media/mp4write.h
+++ b/src/mg/media/mp4write.h
@@ -1913,10 +1913,10 @@ public:
 		                               avcc.AVCProfileIndication  = sequence.profile_idc;
 									   avcc.profile_compatibility = 
 											  sequence.constraint_set0_flag << 7 
-										   || sequence.constraint_set1_flag << 6
-										   || sequence.constraint_set2_flag << 5
-										   || sequence.constraint_set3_flag << 4
-										   || sequence.reserved_zero_bits;
+										   | sequence.constraint_set1_flag << 6
+										   | sequence.constraint_set2_flag << 5
+										   | sequence.constraint_set3_flag << 4
+										   | sequence.reserved_zero_bits;
 									   avcc.AVCLevelIndication = sequence.level_idc;
 									   avcc.lengthSizeMinusOne = 3;
 
-- 
2.43.0


From 86affde9a62f6fc4fb2ff36aa197b5a4eabc0ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:36 +0000
Subject: [PATCH 079/116] fix: the video codec parameter of the manifests has
 the constraint flags

---
 src/mg/media/hls_renderer.h | 18 ++----------------
 src/mg/media/mpd_renderer.h | 15 ++-------------
 2 files changed, 4 insertions(+), 29 deletions(-)

diff --git a/src/mg/media/hls_renderer.h b/src/mg/media/hls_renderer.h
index 4ff95ed..c65a841 100644
--- a/src/mg/media/hls_renderer.h
+++ b/src/mg/media/hls_renderer.h
@@ -118,22 +118,8 @@ public:
 
 		_video_codec.Clear();
 		_video_codec += _T("avc1.");
-		//_video_codec.append_hex_buffer(codec_private_data + 3, 3);
-
-		_video_codec.append_hex_buffer(codec_private_data + 3, 1);
-
-		unsigned char profile_compatibility = codec_private_data[4];
-		              profile_compatibility = 
-						                      (profile_compatibility & 0x80) >> 7
-										   || (profile_compatibility & 0x40) << 6
-										   || (profile_compatibility & 0x20) << 5
-										   || (profile_compatibility & 0x10) << 4
-										   ;
-
-	    _video_codec.append_hex_buffer(&profile_compatibility, 1);
-
-		_video_codec.append_hex_buffer(codec_private_data + 5, 1);
-	    
+		//profile, constraint flags and level
+		_video_codec.append_hex_buffer(codec_private_data + 3, 3);
 
 		_root_m3u += _T("#EXT-X-STREAM-INF:BANDWIDTH=");
 		_root_m3u += (bit_rate + _audio_bit_rate);
diff --git a/src/mg/media/mpd_renderer.h b/src/mg/media/mpd_renderer.h
index 19409c9..a60b972 100644
--- a/src/mg/media/mpd_renderer.h
+++ b/src/mg/media/mpd_renderer.h
@@ -144,19 +144,8 @@ public:
 		_ASSERTE(size > 6);
 
 		codecs += _T("avc1.");
-		codecs.append_hex_buffer(codec_private_data + 3, 1);
-
-		unsigned char profile_compatibility = codec_private_data[4];
-		              profile_compatibility = 
-						                      (profile_compatibility & 0x80) >> 7
-										   || (profile_compatibility & 0x40) << 6
-										   || (profile_compatibility & 0x20) << 5
-										   || (profile_compatibility & 0x10) << 4
-										   ;
-
-		codecs.append_hex_buffer(&profile_compatibility, 1);
-
-		codecs.append_hex_buffer(codec_private_data + 5, 1);
+		//profile, constraint flags and level
+		codecs.append_hex_buffer(codec_private_data + 3, 3);
 
 		bool add_codec = false;
 
-- 
2.43.0


From 8caabb0315c0b689dc72a6463ca4aae27be0872e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:36 +0000
Subject: [PATCH 080/116] fix: the audio codec parameter of a DASH manifest

---
 src/mg/media/mpd_renderer.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mg/media/mpd_renderer.h b/src/mg/media/mpd_renderer.h
index a60b972..cb7b41f 100644
--- a/src/mg/media/mpd_renderer.h
+++ b/src/mg/media/mpd_renderer.h
@@ -206,7 +206,11 @@ public:
 		
 		if(0 == _codecs.size())
 		{
-			_codecs = _T("mp4a.40.2");
+			//the audio object type
+			unsigned int object_type = (0 < size)?(codec_privet_data[0] >> 3):2;
+
+			_codecs  = _T("mp4a.40.");
+			_codecs += object_type;
 
 //#ifndef FRAGMENTEDSTYPFALSE
 //            _rappresentation_xml += _T("\t\t\t<AudioChannelConfiguration schemeIdUri=\"urn:mpeg:dash:23003:3:audio_channel_configuration:2011\" value=\"6\"/>\r\n");
-- 
2.43.0


From 0d3813bef1faf47ca2b4caba091e3ba862474200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:14 +0000
Subject: [PATCH 081/116] fix: the duration of a stream of one sample

---
 src/mg/media/mp4dynamic.h | 2 +-
 src/mg/media/mp4edit.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mg/media/mp4dynamic.h b/src/mg/media/mp4dynamic.h
index dbfcee4..b6dbe22 100644
--- a/src/mg/media/mp4dynamic.h
+++ b/src/mg/media/mp4dynamic.h
@@ -107,7 +107,7 @@ public:
 		)
 	{
 		
-		if(_stream_end[stream_id] < composition_time)
+		if(_stream_end[stream_id] <= composition_time)
 		{
 			_stream_end[stream_id] = composition_time;
 			_stream_end_duration[stream_id] = duration;
diff --git a/src/mg/media/mp4edit.cpp b/src/mg/media/mp4edit.cpp
index aa5b6d4..b8aba17 100644
--- a/src/mg/media/mp4edit.cpp
+++ b/src/mg/media/mp4edit.cpp
@@ -752,7 +752,7 @@ void CMP4EditBase::do_edit_mux(
 			ps->last_duration = reader.get_sample_duration(ms.stream);
 			
 
-		if(last_composition[ms.stream] < ps->last_composition)
+		if(last_composition[ms.stream] <= ps->last_composition)
 		{
 			last_composition[ms.stream] = ps->last_composition;
 			last_duration[ms.stream]    = ps->last_duration;
-- 
2.43.0


From 052061e53bc5a5bea287c51547cce4f4854222dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:40 +0000
Subject: [PATCH 082/116] fix: key frames presented after the nominal duration
 start segments

---
 src/mg/media/mp4dynamic.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mg/media/mp4dynamic.cpp b/src/mg/media/mp4dynamic.cpp
index 5d00352..0282203 100644
--- a/src/mg/media/mp4dynamic.cpp
+++ b/src/mg/media/mp4dynamic.cpp
@@ -249,7 +249,8 @@ void CMP4Dynamic::Add(/*MP4File*/CMP4 & mp4, MP4Reader & reader, uint64_t start,
 
 	if (0 == _current_end)
 	{
-		_current_end = reader.get_duration();
+		//composition offsets move samples over the nominal duration
+		_current_end = UINT64_MAX;
 	}
 
 	if (0 == _info.file_count)
-- 
2.43.0


From 979e9ea2bd8e9e531e29bd0e3626eea452875bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:47 +0000
Subject: [PATCH 083/116] fix: joined files are compared by the size of the
 picture parameter set

---
 src/mg/media/mp4edit.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mg/media/mp4edit.cpp b/src/mg/media/mp4edit.cpp
index b8aba17..519b29f 100644
--- a/src/mg/media/mp4edit.cpp
+++ b/src/mg/media/mp4edit.cpp
@@ -241,11 +241,11 @@ void CMP4EditBase::do_edit_mux(
 					ALXTHROW_T(_T("The files do not have the same sequence"));
 				}
 
-				if(info.video_info[video_stream].sequence_size != 
-					reader.get_visual_entry(0, i).get_avcc_header().get_sequence_size()
+				if(info.video_info[video_stream].picture_size != 
+					reader.get_visual_entry(0, i).get_avcc_header().get_picture_size()
 					)
 				{
-					ALXTHROW_T(_T("The files do not have the same sequence size"));
+					ALXTHROW_T(_T("The files do not have the same picture size"));
 				}
 
 				if(memcmp(
-- 
2.43.0


From 257e11b22ec5ab282fdf2fcc902da81fefab58f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:47 +0000
Subject: [PATCH 084/116] fix: rebasing moves the times of the segments that
 cross files

---
 src/mg/media/mp4dynamicinfo.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/mg/media/mp4dynamicinfo.h b/src/mg/media/mp4dynamicinfo.h
index d1734de..aa0b774 100644
--- a/src/mg/media/mp4dynamicinfo.h
+++ b/src/mg/media/mp4dynamicinfo.h
@@ -413,7 +413,12 @@ public:
 
 		for(icross = _computed_cross.begin(); icross != _computed_cross.end(); icross++ )
 		{
-			cross[icross->first + offset] = icross->second;
+			CrossPoint cp = icross->second;
+
+			cp.computed_time   += offset;
+			cp.computed_time_2 += offset;
+
+			cross[icross->first + offset] = cp;
 		}
 
 		_computed_cross.clear();
-- 
2.43.0


From 5857fa007b0b72c9ff83d17f625fe8271075bcbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:47 +0000
Subject: [PATCH 085/116] fix: segments at the end of a joined file end with
 that file

---
 src/mg/media/mp4dynamic.h     |  4 +-
 src/mg/media/mp4dynamicinfo.h | 86 ++++++++++++++++++++---------------
 src/mgcli/mp4info.cpp         |  2 +-
 3 files changed, 52 insertions(+), 40 deletions(-)

diff --git a/src/mg/media/mp4dynamic.h b/src/mg/media/mp4dynamic.h
index b6dbe22..1370541 100644
--- a/src/mg/media/mp4dynamic.h
+++ b/src/mg/media/mp4dynamic.h
@@ -199,8 +199,8 @@ protected:
 		, uint64_t total_stream_samples) const 
 	{
 		std::map<int, uint64_t> & stream_composition_end = *(const_cast<std::map<int, uint64_t> *>(&_stream_composition_end));
-		//a presentation time after the last sample
-		const uint64_t end = ms.composition_time + stream_offset + ((0 < ms.duration)?ms.duration:1);
+		//a presentation time after the last sample and not after the following one
+		const uint64_t end = ms.composition_time + stream_offset + 1;
 
 		if(stream_composition_end[ms.stream] < end)
 		{
diff --git a/src/mg/media/mp4dynamicinfo.h b/src/mg/media/mp4dynamicinfo.h
index aa0b774..cf5966b 100644
--- a/src/mg/media/mp4dynamicinfo.h
+++ b/src/mg/media/mp4dynamicinfo.h
@@ -161,7 +161,8 @@ class DynamicPoints
 
 	std::map<int64_t, CrossPoint> _computed_cross;
 
-    std::set<int64_t> _file_cross;
+    //computed time where a file starts => composition end of the file before
+    std::map<int64_t, int64_t> _file_cross;
 	
 
 public:
@@ -173,9 +174,9 @@ public:
 		_computed[computed_time] = composition;
 	}
 
-    void AddFileCross(int64_t computed_time)
+    void AddFileCross(int64_t computed_time, int64_t composition_end)
     {
-        _file_cross.insert(computed_time);
+        _file_cross[computed_time] = composition_end;
     }
 
 	void AddCross(uint64_t computed_time
@@ -303,36 +304,46 @@ public:
 	{
 		std::map<int64_t, int64_t>::const_iterator iter = _computed.find(computed_time);
 		
-		int64_t orig = INT64_MAX;
-		int64_t comp = INT64_MAX;
+		if(_computed.end() == iter)
+		{
+			ALXTHROW_LASTERR1(E_INVALIDARG );
+		}
 
-		_ASSERTE(_computed.end() != iter);
-		
-		//if(_computed.end() != iter)
-		//{
-			orig = iter->second;
-			comp = iter->first;
-			iter++;
-		//}
-		
-        std::set<int64_t>::const_iterator ifilecross1 = _file_cross.upper_bound(comp);
-        std::set<int64_t>::const_iterator ifilecross2 = _file_cross.upper_bound(iter->first);
+		int64_t comp = iter->first;
+
+		//a segment that crosses files ends in the second one
+		if(CROSS_POINT_TIME == iter->second)
+			comp = get_cross_point(comp).computed_time_2;
+
+		iter++;
 
-		//if(orig > iter->second //changed file
-        if(ifilecross1 != ifilecross2 //changed file
-			) 
+		if(_computed.end() == iter)
 		{
-			//return INT64_MAX; //get all file to the end
+			ALXTHROW_LASTERR1(E_INVALIDARG );
+		}
+		
+		std::map<int64_t, int64_t>::const_iterator ifilecross = _file_cross.upper_bound(comp);
+
+		if(_file_cross.end() != ifilecross && ifilecross->first <= iter->first) //changed file
+			return ifilecross->second; //get all file to the end
 
-			//_ASSERTE(_computed.end() != iter);
-			_ASSERTE(comp != iter->first);
-			_ASSERTE(comp < iter->first);
+		if(CROSS_POINT_TIME == iter->second)
+			return get_cross_point(iter->first).composition;
+
+		return iter->second;
+	}
 
-			return orig + (iter->first - comp);
+	//end of the part that a segment has in the first of the files it crosses
+	int64_t get_cross_end(uint64_t computed_time) const
+	{
+		std::map<int64_t, int64_t>::const_iterator ifilecross = _file_cross.upper_bound(computed_time);
 
+		if(_file_cross.end() == ifilecross)
+		{
+			ALXTHROW_LASTERR1(E_INVALIDARG );
 		}
 
-		return iter->second;
+		return ifilecross->second;
 	}
 
 	int64_t get_end_computed(uint64_t computed_time) const
@@ -390,21 +401,16 @@ public:
 
         //////////////////////////////////////////////////////////////
 
-         std::set<int64_t> file_cross;
+         std::map<int64_t, int64_t> file_cross;
 
-         std::set<int64_t>::const_iterator ifilecross;
+         std::map<int64_t, int64_t>::const_iterator ifilecross;
 
          for(ifilecross = _file_cross.begin(); ifilecross != _file_cross.end(); ifilecross++)
          {
-             file_cross.insert((*ifilecross) + offset);
+             file_cross[ifilecross->first + offset] = ifilecross->second;
          }
 
-         _file_cross.clear();
-
-         for(ifilecross = file_cross.begin(); ifilecross != file_cross.end(); ifilecross++)
-         {
-             _file_cross.insert((*ifilecross));
-         }
+         _file_cross.swap(file_cross);
          
 		///////////////////////////////////////////////
 		std::map<int64_t, CrossPoint> cross;
@@ -554,9 +560,9 @@ public:
 		_points.Add(computed_time, composition);
 	}
 
-    void AddPointFileCross(int64_t computed_time)
+    void AddPointFileCross(int64_t computed_time, int64_t composition_end)
     {
-        _points.AddFileCross(computed_time);
+        _points.AddFileCross(computed_time, composition_end);
     }
 
 	void AddPointCross(int64_t computed_time, int64_t composition, int64_t computed_time_2, int64_t composition_2)
@@ -641,6 +647,11 @@ public:
          return _points.get_end(computed_time);
 	}
 
+	uint64_t get_cross_end_original_time(uint64_t computed_time) const
+	{
+         return _points.get_cross_end(computed_time);
+	}
+
 	uint64_t get_end_computed_time(uint64_t computed_time) const
 	{
 		return _points.get_end_computed(computed_time);
@@ -1122,7 +1133,8 @@ public:
                                 if(0 == k)//first bitrate only
                                 {
                                     pStream->AddPointFileCross(
-                                        _presentation.get_by_index(i)->get_current_end()
+                                          _presentation.get_by_index(i)->get_current_end()
+                                        , get_stream_composition_end(i)
                                     );
                                 }
 
diff --git a/src/mgcli/mp4info.cpp b/src/mgcli/mp4info.cpp
index d7d0ae1..460eabf 100644
--- a/src/mgcli/mp4info.cpp
+++ b/src/mgcli/mp4info.cpp
@@ -5655,7 +5655,7 @@ int _tmain(int argc, TCHAR* argv[])
 										, (s->id + 1)//mpd_track_id
 										, s->get_path(bitrate->first, computed_time) //bitrate->second->get_path(computed_time)
 										, cp.composition //composition_time
-										, (cp.composition + cp.computed_time_2 - cp.computed_time)
+										, s->get_cross_end_original_time(computed_time)
 										, s->get_path(bitrate->first, cp.computed_time_2)
 										, cp.composition_2
 										, end_time
-- 
2.43.0


From 24abff2694dff8a5b44de905dd301e391e708a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:47 +0000
Subject: [PATCH 086/116] fix: audio segments that cross files stop at the end
 of each file

---
 src/mg/media/mp4dynamic.cpp | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/src/mg/media/mp4dynamic.cpp b/src/mg/media/mp4dynamic.cpp
index 0282203..82d2562 100644
--- a/src/mg/media/mp4dynamic.cpp
+++ b/src/mg/media/mp4dynamic.cpp
@@ -350,12 +350,17 @@ void CMP4DynamicDiscreate::publish_no_random_stream(
 	}
 
 
+	//the samples before the end
+	uint64_t count = reader.get_sample_count(stream);
+
+	while(UINT64_MAX != end && p + 1 < count
+		&& (((has_composition)?reader.get_composition_time(count - 1, stream):reader.get_decoding_time(count - 1, stream)) + off) >= end)
+		count--;
+
 	if(UINT64_MAX != _reporting_start_time[stream] 
 			&& _generate_only_full_fragment)
 	{
-		_ASSERTE(jump > _reporting_samples[stream]);
-		
-		uint64_t fill_jump = jump - _reporting_samples[stream];
+		uint64_t fill_jump = (jump > _reporting_samples[stream])?(jump - _reporting_samples[stream]):1;
 
 		uint64_t t1 = computed_time(
 			                          (composition - off) - (_reporting_samples[stream] * d)
@@ -380,21 +385,23 @@ void CMP4DynamicDiscreate::publish_no_random_stream(
 				
 		
 		
+		_reporting_start_time[stream] = UINT64_MAX;
+
 		p += fill_jump;
 
+		if(p >= count)
+			return;
+
 		if(has_composition)
 			composition =  reader.get_composition_time(p, stream);
 		else
 		    composition = reader.get_decoding_time(p, stream);
 
 		composition += off;
-
-
-		_reporting_start_time[stream] = UINT64_MAX;
 	}
 		
 
-	while(composition < end && p < reader.get_sample_count(stream))
+	while(composition < end && p < count)
 	{
 		publish_segmented_composition(
 							  composition
@@ -406,18 +413,18 @@ void CMP4DynamicDiscreate::publish_no_random_stream(
 
 		p += jump;
 
-		if(p >= reader.get_sample_count(stream))
+		if(p >= count)
 			break;
 
-		if( (reader.get_sample_count(stream) - p) < jump  ) //last sample 
+		if( (count - p) < jump  ) //last sample 
 		{
 			if(_generate_only_full_fragment)
 			{
 				_ASSERTE(UINT64_MAX == _reporting_start_time[stream]);
 				 
-				_reporting_samples[stream]    = reader.get_sample_count(stream) - p;
+				_reporting_samples[stream]    = count - p;
 
-				uint64_t sn   = reader.get_sample_count(stream) - _reporting_samples[stream];
+				uint64_t sn   = p;
 
 				_reporting_start_time[stream] = reader.get_decoding_time(sn, stream);
 
@@ -433,14 +440,13 @@ void CMP4DynamicDiscreate::publish_no_random_stream(
 
 				_reporting_start_time[stream] += off;
 				
-				//p = reader.get_sample_count(stream); //get off
 				return;
 
 				
 			}
 			else
 			{
-				p = reader.get_sample_count(stream) - 1;
+				p = count - 1;
 			}
 		}
 
-- 
2.43.0


From be5dad2c68de6feb3c388f2e1144fbcbf1398d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:14 +0000
Subject: [PATCH 087/116] fix: the end of every stream of a joined file is
 found reading its samples

---
 src/mg/media/mp4dynamic.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/mg/media/mp4dynamic.cpp b/src/mg/media/mp4dynamic.cpp
index 82d2562..a407e98 100644
--- a/src/mg/media/mp4dynamic.cpp
+++ b/src/mg/media/mp4dynamic.cpp
@@ -40,9 +40,6 @@ void CMP4Dynamic::move_to_read(  uint64_t start
 			, MP4Reader &reader
 			)
 {
-	bool only_audio = !reader.HasVisual();
-	uint64_t last_composition = 0;
-
 	uint64_t computed_start_time = UINT64_MAX;
     
     size_t stream_count =  reader.stream_count();
@@ -121,11 +118,11 @@ void CMP4Dynamic::move_to_read(  uint64_t start
 
 		end_stream();
 
-		if(reader.IsVisual(idx) || only_audio)
-			last_composition = t_composition;
 	}
 
-	reader.move(last_composition);
+	//the end of every stream is found reading all of its samples: the last key frame can be
+	//the only sample of the last interval
+	reader.move(start);
 
 }
 
-- 
2.43.0


From 74973d2d51d4092b6ff45ebac92dc979529d8659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:54 +0000
Subject: [PATCH 088/116] fix: files without key frames start where the reader
 is moved to

---
 src/mg/media/mp4dynamic.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/mg/media/mp4dynamic.cpp b/src/mg/media/mp4dynamic.cpp
index a407e98..7b9a37a 100644
--- a/src/mg/media/mp4dynamic.cpp
+++ b/src/mg/media/mp4dynamic.cpp
@@ -107,9 +107,15 @@ void CMP4Dynamic::move_to_read(  uint64_t start
 				}
 			}
 
-			if(UINT64_MAX == computed_start_time) //we do not have an I frame stream
+			if(UINT64_MAX == computed_start_time) //we do not have an I frame stream, start where the reader moves to
 			{
-				computed_start_time = start;
+				int first = (reader.HasVisual())?reader.VisualStream():0;
+
+				const uint64_t offset = reader.get_stream_offset(first);
+
+				computed_start_time = reader.get_composition_time(
+					  reader.get_composition_sample_number((start > offset)?(start - offset):0, first)
+					, first) + offset;
 			}
 
 
-- 
2.43.0


From bc408049d532f94e4df0c92094513cc86b28feb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:00 +0000
Subject: [PATCH 089/116] fix: the audio codec of the HLS main list

---
 src/mg/media/hls_renderer.h | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/mg/media/hls_renderer.h b/src/mg/media/hls_renderer.h
index c65a841..2f2071b 100644
--- a/src/mg/media/hls_renderer.h
+++ b/src/mg/media/hls_renderer.h
@@ -89,8 +89,6 @@ public:
 
 	virtual void begin(uint64_t duration)
 	{		
-		_audio_codec += _T("mp4a.40.2");
-
 		_root_m3u += _T("#EXTM3U\n");
 		_root_m3u += _T("#EXT-X-VERSION:3\n");
 	}
@@ -129,8 +127,12 @@ public:
 		_root_m3u += Height;
 		_root_m3u += _T(",CODECS=\"");
 		_root_m3u += _video_codec; //TODO LOWER CASE?
-		_root_m3u += _T(",");
-		_root_m3u += _audio_codec;
+		if(_has_audio)
+		{
+			_root_m3u += _T(",");
+			_root_m3u += _audio_codec;
+		}
+
 		_root_m3u += _T("\"\n");
 
 		Cstring file_name = _prefix.clone();
@@ -153,6 +155,16 @@ public:
 		_index++;
 
 		_audio_bit_rate = bit_rate;
+
+		if(!_has_audio)
+		{
+			//the audio object type
+			unsigned int object_type = (0 < size)?(codec_privet_data[0] >> 3):2;
+
+			_audio_codec  = _T("mp4a.40.");
+			_audio_codec += object_type;
+		}
+
 		_has_audio = true;
 		 
 
-- 
2.43.0


From c2479c71a5d7cffa27aa958ef67d1aead4ef26b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:01 +0000
Subject: [PATCH 090/116] fix: the fraction of the segment durations in HLS
 lists

---
 src/mg/media/hls_renderer.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/mg/media/hls_renderer.h b/src/mg/media/hls_renderer.h
index 2f2071b..f5075dc 100644
--- a/src/mg/media/hls_renderer.h
+++ b/src/mg/media/hls_renderer.h
@@ -201,12 +201,16 @@ public:
 
 		//duration = duration / 10UL;
 
-		uint64_t TNANO = duration % 1000000UL;
-
 		_body += _T("#EXTINF:");
 		_body += duration / 10000000UL;
 		_body += _T(".");
-		_body += TNANO;
+
+		//seven digits
+		uint64_t TNANO = duration % 10000000UL;
+
+		for(uint64_t digit = 1000000UL; digit > 0; digit /= 10)
+			_body += (TNANO / digit) % 10;
+
 		_body += _T(",no-desc\r\n");
 		_body += _prefix;
 		_body += _T("_");
-- 
2.43.0


From b754fc7d8a4be4c662c7579ff41dd1d65357b48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:01 +0000
Subject: [PATCH 091/116] fix: the target duration of HLS lists is that of the
 longest segment

---
 src/mg/media/hls_renderer.h | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/mg/media/hls_renderer.h b/src/mg/media/hls_renderer.h
index f5075dc..198094d 100644
--- a/src/mg/media/hls_renderer.h
+++ b/src/mg/media/hls_renderer.h
@@ -52,6 +52,7 @@ class HLSRenderer: public IDynamicRenderer
 	 bool _has_audio;
 	 bool _begin_stream;
 	 bool _video_points;
+	 uint64_t _target_duration;
 
 	 int _audio_bit_rate;
 
@@ -73,6 +74,7 @@ public:
 		, _body(10240)
 		, _begin_stream(false)
 		, _video_points(false)
+		, _target_duration(0)
 		, _prefix(_T("video"))
 		, _use_stream_name(true)
 		, _encrypted(false)
@@ -186,7 +188,7 @@ public:
 			_body += _T("#EXT-X-ALLOW-CACHE:NO\r\n");
 			_body += _T("#EXT-X-MEDIA-SEQUENCE:0\r\n");
 			_body += _T("#EXT-X-TARGETDURATION:");
-			_body += duration / 10000000UL;
+			_body += _T("$(TARGETDURATION)");
 			_body += "\r\n";
 			_body += _T("#EXT-X-PROGRAM-DATE-TIME:1970-01-01T00:00:00Z\r\n");
 
@@ -205,6 +207,10 @@ public:
 		_body += duration / 10000000UL;
 		_body += _T(".");
 
+		//segment durations rounded must not exceed it
+		if(_target_duration < (duration + 5000000UL) / 10000000UL)
+			_target_duration = (duration + 5000000UL) / 10000000UL;
+
 		//seven digits
 		uint64_t TNANO = duration % 10000000UL;
 
@@ -243,6 +249,11 @@ public:
 
 		_body += _T("#EXT-X-ENDLIST\r\n");
 
+		Cstring target;
+		        target += _target_duration;
+
+		_body = replace(_body, target, _T("$(TARGETDURATION)"));
+
 	}
 
 	Cstring & main(){return _root_m3u;}
-- 
2.43.0


From 14ed8037a01e13b31164c54812e714d95ccef50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:01 +0000
Subject: [PATCH 092/116] fix: HLS segments are encrypted with the sequence
 number of the list

---
 src/mg/media/tsinfo.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mg/media/tsinfo.cpp b/src/mg/media/tsinfo.cpp
index c22ada0..f734715 100644
--- a/src/mg/media/tsinfo.cpp
+++ b/src/mg/media/tsinfo.cpp
@@ -983,7 +983,7 @@ int do_hls_mux(console_command &c, std::ostream & ost)
 					{
 
 						track_id++;
-						unsigned char sequence(0);
+						int sequence(0);
 
 						//*****Initialization Segment//
 
@@ -1063,7 +1063,7 @@ int do_hls_mux(console_command &c, std::ostream & ost)
 												   << static_cast<const TCHAR*>(s->get_path(bitrate->first, computed_time))
 												   << std::endl;
 
-										ts4edit.set_section_continuity(sequence++);
+										ts4edit.set_section_continuity(sequence);
 										ts4edit.start(out_chunk_file);
 										
 										if(false)//(!separated_audio)
@@ -1134,9 +1134,11 @@ int do_hls_mux(console_command &c, std::ostream & ost)
 
 								if(encrypted)
 								{
+											//the list starts with sequence 0
 											hls_encrypt(out_chunk_file, (sequence), pKey);
 								}
 
+								sequence++;
 
 							}
 
-- 
2.43.0


From 1d1753c0598c929d11bf1e141702215f3676bd00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:52 +0000
Subject: [PATCH 093/116] fix: stuffing bytes of adaptation fields are 0xFF

---
 src/mg/media/mp4/mpeg2ts.fl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mg/media/mp4/mpeg2ts.fl b/src/mg/media/mp4/mpeg2ts.fl
index 1fca2e5..2e3a6bf 100644
--- a/src/mg/media/mp4/mpeg2ts.fl
+++ b/src/mg/media/mp4/mpeg2ts.fl
@@ -988,7 +988,7 @@ class Adaptation_Field
             %g}
             %p{
                for(unsigned int dx = 0; dx < (adaptation_field_length - (total_bits/8)); dx++)
-                    var_bs.putbits(0x0, 8);
+                    var_bs.putbits(0xFF, 8);
             %p}
         }
 			
-- 
2.43.0


From 46d5f89e68fd807e753068299be1602ad88f1723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:52 +0000
Subject: [PATCH 094/116] fix: the times of transport streams have the
 precision of their clock

---
 src/mg/media/mp4/mpeg2ts.fl | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/mg/media/mp4/mpeg2ts.fl b/src/mg/media/mp4/mpeg2ts.fl
index 2e3a6bf..8667cdf 100644
--- a/src/mg/media/mp4/mpeg2ts.fl
+++ b/src/mg/media/mp4/mpeg2ts.fl
@@ -127,17 +127,14 @@ class MpegTime{
 
         static void ToMpegTime(uint64_t time, unsigned int &t32_30, unsigned int &t29_15, unsigned int &t14_0, unsigned int &ext)
 		{
-			uint64_t system_clock_frequency = 27000;
+			//27 MHz: 27 ticks every 10 hundred nanoseconds
+			uint64_t ticks = (time / 10) * 27 + ((time % 10) * 27) / 10;
 
-			time = time / 10000;
-
-	
-
-			uint64_t pcr_base =  (time * system_clock_frequency)/300;//((system_clock_frequency * time)/300)%(2^33);
-			uint64_t pcr_ext  =  (time * system_clock_frequency)%300;//((system_clock_frequency * time)%(300*2^33)) - (pcr_base*300);
+			uint64_t pcr_base =  ticks / 300;
+			uint64_t pcr_ext  =  ticks % 300;
     
-			t32_30 = static_cast<uint32_t>( pcr_base >> 30 );
-			t29_15 = (pcr_base  >> 15) & 0x2FFFFFFF;
+			t32_30 = static_cast<uint32_t>( (pcr_base >> 30) & 0x00000007 );
+			t29_15 = (pcr_base  >> 15) & 0x00007FFF;
 			t14_0  = (pcr_base & 0x00007FFF);
 			ext    =  static_cast<uint32_t>(pcr_ext);
 
-- 
2.43.0


From ce4365b2ec42872de1b7352fd16a97c3cbf35ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:01 +0000
Subject: [PATCH 095/116] fix: the last HLS segment has the audio up to the end
 of its video

---
 src/mg/media/tsinfo.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mg/media/tsinfo.cpp b/src/mg/media/tsinfo.cpp
index f734715..fdb0d32 100644
--- a/src/mg/media/tsinfo.cpp
+++ b/src/mg/media/tsinfo.cpp
@@ -1011,6 +1011,10 @@ int do_hls_mux(console_command &c, std::ostream & ost)
 								uint64_t end_computed = point->first - computed_time;
 
 								_ASSERTE(end_time == point->second || cnt > 1); //only for single files
+
+								//the last point of a file is its last sample: go on to the end of it
+								if(s->is_video())
+									end_time = composition_time + end_computed;
 								
 								Cstring out_chunk_file = out_dir.clone();
 
-- 
2.43.0


From 3845ee6f425e7ff87cb5baebdc1dd188b86dc8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:16 +0000
Subject: [PATCH 096/116] fix: an HLS segment starts with the key frame
 presented at its start time

---
 src/mg/media/mp4edit.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/mg/media/mp4edit.cpp b/src/mg/media/mp4edit.cpp
index 519b29f..dae2985 100644
--- a/src/mg/media/mp4edit.cpp
+++ b/src/mg/media/mp4edit.cpp
@@ -305,7 +305,21 @@ void CMP4EditBase::do_edit_mux(
     
 		int current_look_head = 0;
 
-		reader.move(start);
+		uint64_t position = start;
+
+		//start is a presentation time, a random access point is found by its decoding time
+		if(discard_pre_start && reader.HasVisual() && reader.has_random_access_point(reader.VisualStream()))
+		{
+			unsigned int visual        = reader.VisualStream();
+			uint64_t     visual_offset = reader.get_stream_offset(visual);
+
+			if(visual_offset <= position)
+				position = reader.get_decoding_time(
+					  reader.get_composition_sample_number(position - visual_offset, visual)
+					, visual);
+		}
+
+		reader.move(position);
 
 		info.ltc_interpolated = false;
 
@@ -604,7 +618,7 @@ void CMP4EditBase::do_edit_mux(
 
 	////////////////////////
 	//reader.move(start);
-	move_to_read(start, reader);
+	move_to_read(position, reader);
 	////////////////////////
 
 	work = true;
-- 
2.43.0


From fd682aaef2de3423b08d93682c1dcb24e6c54cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:16 +0000
Subject: [PATCH 097/116] fix: HLS segments behind the end of the audio

---
 src/mg/media/mp4edit.cpp | 39 ++++++++++++++++++++++++++++++++++++---
 1 file changed, 36 insertions(+), 3 deletions(-)

diff --git a/src/mg/media/mp4edit.cpp b/src/mg/media/mp4edit.cpp
index dae2985..afb0aef 100644
--- a/src/mg/media/mp4edit.cpp
+++ b/src/mg/media/mp4edit.cpp
@@ -328,17 +328,50 @@ void CMP4EditBase::do_edit_mux(
 			
 			if(!reader.next_file_chunks(ms))
 			{
+				int64_t first = INT64_MAX;
+
 				for(size_t i = 0; i < reader.stream_count(); i++)
 				{
 					if(!reader.IsValidStream(i) || reader.IsLTC(i))
 						continue;
 
-					if((info.map[i].video
-							?info.video_info[info.map[i].internal_index].next_composition
-							:info.audio_info[info.map[i].internal_index].next_composition) == INT64_MAX)
+					stream_edit_info * pfirst = &info.audio_info[info.map[i].internal_index];
+
+					if(info.map[i].video)
+						pfirst = &info.video_info[info.map[i].internal_index];
+
+					if(pfirst->next_composition < first)
+					{
+						first = pfirst->next_composition;
+						ps    = pfirst;
+					}
+
+					if(pfirst->next_composition == INT64_MAX && !discard_pre_start)
 						ALXTHROW_T(_T("cannot check first sample info."));
 				}
 
+				if(INT64_MAX == first)
+					ALXTHROW_T(_T("cannot check first sample info."));
+
+				//streams that ended before the start do not count
+				for(size_t i = 0; i < reader.stream_count(); i++)
+				{
+					if(!reader.IsValidStream(i) || reader.IsLTC(i))
+						continue;
+
+					stream_edit_info * pended = &info.audio_info[info.map[i].internal_index];
+
+					if(info.map[i].video)
+						pended = &info.video_info[info.map[i].internal_index];
+
+					if(pended->next_composition == INT64_MAX)
+					{
+						pended->next_composition = ps->next_composition;
+						pended->next_duration    = ps->next_duration;
+						pended->next_decoding    = ps->next_decoding;
+					}
+				}
+
 				break; //the file ends before the look ahead does
 			}
 
-- 
2.43.0


From 4f9bfd89de558e9db30834e828a929a6a9ea0124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:58 +0000
Subject: [PATCH 098/116] fix: the streams of an HLS segment keep the times
 they have in the file

---
 src/mg/media/tsmux.h | 60 ++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 55 insertions(+), 5 deletions(-)

diff --git a/src/mg/media/tsmux.h b/src/mg/media/tsmux.h
index b55c626..71c4c24 100644
--- a/src/mg/media/tsmux.h
+++ b/src/mg/media/tsmux.h
@@ -643,14 +643,40 @@ class HLSMux: public TSMux
 	std::map<int, HLSSTREAM> _composition_start_time;
 	std::map<int, uint64_t> _composition_end_time;
 
+	//from the times of the joined streams to those of the file
+	struct FILETIME_OFFSET
+	{
+		int64_t composition;
+		int64_t decoding;
+		bool    has_composition;
+	};
 
+	std::map<int, FILETIME_OFFSET> _file_time;
+
+	uint64_t _file_start_time;
 
 public:
 
+	void set_file_start_time(uint64_t file_start_time)
+	{
+		_file_start_time = file_start_time;
+	}
+
+	virtual void set_auto_decoding_time(const int stream_id, const bool rhs)
+	{
+		_file_time[stream_id].has_composition = rhs;
+	}
+
+	void set_file_time(int stream_id, int64_t composition, int64_t decoding)
+	{
+		_file_time[stream_id].composition = composition;
+		_file_time[stream_id].decoding    = decoding;
+	}
+
 
 #if _DEBUG
 	uint64_t _last[64];
-	HLSMux()
+	HLSMux():_file_start_time(0)
 	{
 		for(int i = 0; i < 64; i++)
 			_last[i] = 0;
@@ -658,7 +684,7 @@ public:
 		set_only_table_at_beginning(true);
 	}
 #else
-    HLSMux()
+    HLSMux():_file_start_time(0)
 	{
 		set_only_table_at_beginning(true);
 	}
@@ -683,17 +709,25 @@ public:
 
 		HLSSTREAM s = _composition_start_time[t_stream_id];
 
+		//all streams keep the times they have in the file
+		const FILETIME_OFFSET & file = _file_time[stream_id];
+
+		composition_time += file.composition;
+
+		if(file.has_composition)
+			decoding_time += file.decoding;
+		else
+			decoding_time = composition_time;
+
 		//_ASSERTE(composition_time >= decoding_time);
 		uint64_t decoding_offset = composition_time - decoding_time;
 
         
 		if(INT64_MAX == s.computed_offset)
 		{
-			s.computed_offset = s.base_time - composition_time;
+			s.computed_offset = s.base_time - _file_start_time;
 		    _composition_start_time[t_stream_id] = s;
 
-			_ASSERTE( (composition_time  + s.computed_offset) == s.base_time );
-
 			/*
 			DBGC4(L"FIRST SAMPLE %s %s %s %d\r\n"
 				, HNS(composition_time)
@@ -766,11 +800,27 @@ protected:
 	
 	virtual IMP4Mux2 & get_mux(){ return _mp4mux; }
 	virtual void set_ctts_offset_(bool rhs){}
+
+	virtual void info_composition_info2(const int stream_id, stream_edit_info * ps
+		, uint64_t composition, uint64_t decoding)
+	{
+		_mp4mux.set_file_time(stream_id
+			, ps->next_composition - static_cast<int64_t>(ps->stream_composition)
+			, static_cast<int64_t>(ps->next_decoding) - static_cast<int64_t>(ps->stream_decoding));
+	}
 public:
 	MP42HLS()
 	{
 		 set_discard_pre_start(true);
 	}
+
+	void Add(const TCHAR * pszfile, uint64_t start, uint64_t end)
+	{
+		_mp4mux.set_file_start_time(start);
+
+		CMP4Edit_::Add(pszfile, start, end);
+	}
+
 	void set_composition_start_time(int stream_id, uint64_t composition_time)
 	{
 		_mp4mux.set_composition_start_time(stream_id, composition_time);
-- 
2.43.0


From 3b490dc98eac8d6c5f9120845c4ae3df72c4d6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:33 +0000
Subject: [PATCH 099/116] fix: transport packets one byte short keep their
 random access flag and PCR

---
 src/mg/media/tswrite.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mg/media/tswrite.h b/src/mg/media/tswrite.h
index 7d9c5d5..de1763f 100644
--- a/src/mg/media/tswrite.h
+++ b/src/mg/media/tswrite.h
@@ -474,7 +474,7 @@ public:
 
 			first_adaptation = true;
 
-			if(1 == diff)
+			if(1 == diff && !random_access_indicator)
 			{
 				af.adaptation_field_length = 0;
 				
-- 
2.43.0


From 8440a025f260a78bcf761ded47622eb83b04a868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:33 +0000
Subject: [PATCH 100/116] fix: the length of PES packets that do not fit 16
 bits is not written

---
 src/mg/media/tswrite.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mg/media/tswrite.h b/src/mg/media/tswrite.h
index de1763f..037ba08 100644
--- a/src/mg/media/tswrite.h
+++ b/src/mg/media/tswrite.h
@@ -159,7 +159,7 @@ protected:
 		pes.PES_packet_length += pes.PES_header_data_length;
 		pes.PES_packet_length += body_size;
 
-		if(!body_size || MAX_PES_SIZE <= body_size)
+		if(!body_size || MAX_PES_SIZE < pes.PES_packet_length)
 			pes.PES_packet_length = 0; //no length packet
 
 	}
-- 
2.43.0


From 0c6feefabc2e5922249117455a9358462a3ef5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:42 +0000
Subject: [PATCH 101/116] fix: a reordered movie joined to one that is not
 keeps its times

---
 src/mg/media/mp4edit.cpp |  4 ++++
 src/mg/media/mp4write.h  | 11 ++++++-----
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/mg/media/mp4edit.cpp b/src/mg/media/mp4edit.cpp
index afb0aef..3fbc6ad 100644
--- a/src/mg/media/mp4edit.cpp
+++ b/src/mg/media/mp4edit.cpp
@@ -204,6 +204,10 @@ void CMP4EditBase::do_edit_mux(
         if(!reader.IsValidStream(i))
             continue;
 
+		//one file with reordered samples is enough
+		if(!reader.IsLTC(i) && reader.has_composition_time(i))
+			body.set_auto_decoding_time(i, true);
+
 		//if(!reader.IsLTC(i))
 		//{
 			if(info.map[i].video)
diff --git a/src/mg/media/mp4write.h b/src/mg/media/mp4write.h
index 0bdc5d2..1b97b6c 100644
--- a/src/mg/media/mp4write.h
+++ b/src/mg/media/mp4write.h
@@ -899,10 +899,6 @@ protected:
 		if(_sample_min > time.composition)
 			_sample_min = time.composition;
 
-
-		if(_auto_decoding_time)
-			_auto_decoding_vector.push_back(ms.composition_time);
-
 		if(IsVisual())
 		{
 			if(ms.bIsSyncPoint)
@@ -1273,7 +1269,12 @@ public:
 	void compute_auto_decoding_time()
 	{
 		_ASSERTE(_auto_decoding_time);
-		_ASSERTE(_auto_decoding_vector.size() == _samples.size());
+
+		//of all samples: those added before it was set too
+		_auto_decoding_vector.clear();
+
+		for(uint32_t i = 0; i < _samples.size(); i++)
+			_auto_decoding_vector.push_back(_samples[i].composition);
 
 		if(!_auto_decoding_vector.size())
 		   return;
-- 
2.43.0


From 39245d112b37d003581bd7fe006dfcf1c7d51a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:33 +0000
Subject: [PATCH 102/116] fix: the video time scale option of mux sets that of
 the video

---
 src/mgcli/mp4info.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mgcli/mp4info.cpp b/src/mgcli/mp4info.cpp
index 460eabf..294c21b 100644
--- a/src/mgcli/mp4info.cpp
+++ b/src/mgcli/mp4info.cpp
@@ -3736,7 +3736,7 @@ int do_mp4_mux(console_command &c, CMP4Edit & mp4edit)
             if(c.command_specified(_T("videotimescale")))
 			{
 				uint64_t videotimescale = c.get_value(_T("videotimescale"));
-				mp4edit.set_stream_time_scale(videotimescale);
+				mp4edit.set_stream_time_scale(videotimescale, false);
 
 				std::wcout << _T("SETTING VIDEO TIMESCALE ") << videotimescale << std::endl;
 			}
-- 
2.43.0


From 24c55b3c13457b1deba73db8cae61ef69f3e33ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:06 +0000
Subject: [PATCH 103/116] fix: the decoding times of joined movies are taken
 with their delay

---
 src/mg/media/mp4edit.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mg/media/mp4edit.cpp b/src/mg/media/mp4edit.cpp
index 3fbc6ad..2b0a1b6 100644
--- a/src/mg/media/mp4edit.cpp
+++ b/src/mg/media/mp4edit.cpp
@@ -408,7 +408,7 @@ void CMP4EditBase::do_edit_mux(
 						info.video_info[info.map[ms.stream].internal_index].next_composition = ms.composition_time;
 						info.video_info[info.map[ms.stream].internal_index].next_duration    = ms.duration;
 						
-						info.video_info[info.map[ms.stream].internal_index].next_decoding    = ms.decoding_time;
+						info.video_info[info.map[ms.stream].internal_index].next_decoding    = ms.decoding_time + stream_offset;
 						work = true;
 					}
 				}
@@ -420,7 +420,7 @@ void CMP4EditBase::do_edit_mux(
 						{
 							info.audio_info[info.map[ms.stream].internal_index].next_composition = ms.composition_time;
 							info.audio_info[info.map[ms.stream].internal_index].next_duration    = ms.duration;
-							info.audio_info[info.map[ms.stream].internal_index].next_decoding    = ms.decoding_time;
+							info.audio_info[info.map[ms.stream].internal_index].next_decoding    = ms.decoding_time + stream_offset;
 						}
 						
 						work = true;
-- 
2.43.0


From dead2607e1014ed95c120f827b078adf7d1b9a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:51 +0000
Subject: [PATCH 104/116] fix: the last packets of a transport stream are read
 when they have no length

---
 src/mg/media/tsinfo.cpp |  4 ++++
 src/mg/media/tsparse.h  | 15 +++++++++++++++
 2 files changed, 19 insertions(+)

diff --git a/src/mg/media/tsinfo.cpp b/src/mg/media/tsinfo.cpp
index fdb0d32..79d63f4 100644
--- a/src/mg/media/tsinfo.cpp
+++ b/src/mg/media/tsinfo.cpp
@@ -1343,6 +1343,8 @@ int tsinfo(console_command & c, std::ostream & ost)
 					else
 						while(TSPROCESSRESULT::TSEOF != ts.process_packets(processor, size))
 						{}
+
+					processor.flush();
 				}//auto - pick
 				else if(kind == _T("ts2mp4"))
 				{
@@ -1367,6 +1369,8 @@ int tsinfo(console_command & c, std::ostream & ost)
 					while(TSPROCESSRESULT::TSEOF != ts.process_packets(processor, size))
 					{}
 
+					processor.flush();
+
 					processor.end();
 				}
 		}
diff --git a/src/mg/media/tsparse.h b/src/mg/media/tsparse.h
index c1da0f0..ee13c2a 100644
--- a/src/mg/media/tsparse.h
+++ b/src/mg/media/tsparse.h
@@ -754,6 +754,21 @@ public:
 		
 	}
 
+	//no more packets: packets without a length end here
+	void flush()
+	{
+		std::map<int, ts_pes*>::iterator iter;
+
+		for(iter = _pes.begin(); iter != _pes.end(); iter++)
+		{
+			if(iter->second && iter->second->HasPID())
+			{
+				iter->second->End();
+				iter->second->Reset();
+			}
+		}
+	}
+
 	void close()
 	{
 		clean_up_pmt();
-- 
2.43.0


From 9c8085c37b7ca5f4a37870282835125a6aaa7f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:51 +0000
Subject: [PATCH 105/116] fix: every packet of an elementary stream has its own
 random access mark

---
 src/mg/media/ts.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mg/media/ts.h b/src/mg/media/ts.h
index ee90469..97bd77a 100644
--- a/src/mg/media/ts.h
+++ b/src/mg/media/ts.h
@@ -149,6 +149,7 @@ public:
 
 			CleanUp();
 			_payload.Reset();
+			_HasFirstAdaptation = false;
 			_begin_payload_packet_count = _last_packet_count;
 		}
 		
-- 
2.43.0


From 336dc5569a9424a497b5b4e3ab493486141ee193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:46 +0000
Subject: [PATCH 106/116] fix: the parameter sets of a transport stream are
 decoded when they are complete

---
 src/mg/media/ts.h      |  7 ++++++-
 src/mg/media/tsparse.h | 34 +++++++++++++++++++++++++++++-----
 2 files changed, 35 insertions(+), 6 deletions(-)

diff --git a/src/mg/media/ts.h b/src/mg/media/ts.h
index 97bd77a..c689e2d 100644
--- a/src/mg/media/ts.h
+++ b/src/mg/media/ts.h
@@ -865,7 +865,12 @@ protected:
 		if(LookUp(payload, ms))
 		{
 		   TSProgramElementaryStream<I>::_offset = ms.get_position();//payload.GetPosition() - ms.getUnreadBufferSize();
-		   structure_get(ms);
+
+		   //more packets are needed if it is not complete
+		   try{structure_get(ms);}
+		   catch(EndOfData &)
+		   {return false;}
+
 		   _HasStruct = true;
 
 		   return true;
diff --git a/src/mg/media/tsparse.h b/src/mg/media/tsparse.h
index ee13c2a..0088c4f 100644
--- a/src/mg/media/tsparse.h
+++ b/src/mg/media/tsparse.h
@@ -394,6 +394,7 @@ class TSProgramElementaryStreamAnalyzeH264: public TSProgramElementaryStreamAnal
 {
 	pic_parameter_set_rbsp _picture;
 	bool _has_picture;
+	H264Nal _nal;
 
 	CBufferRead _payload;
 
@@ -405,20 +406,43 @@ protected:
 		std::wcerr << L"Empty PES" << std::endl;
 	}
 
+	//decode the unit behind a start code, it goes on until the next one
+	void nal_get(IBitstream &ms)
+	{
+		CBuffer<BYTE> unit(1024);
+
+		ms.skipbits(24);
+
+		while(1 < ms.nextbits(24)) //there is no end yet if this throws
+		{
+			BYTE b = static_cast<BYTE>(ms.getbits(8));
+			unit.add(&b, 1);
+		}
+
+		while(0 == ms.nextbits(24))
+			ms.skipbits(8);
+
+		_nal.decode_nal(static_cast<uint32_t>(unit.size()), unit.get());
+	}
+
 	virtual void structure_get(IBitstream &ms)
 	{
 		_ASSERTE(IsHim(ms));
-		ms.skipbits(32);
 
-		TSProgramElementaryStreamAnalyze<H264Sequence>::structure_get(ms);
+		nal_get(ms);
+
+		{
+			fixed_memory_bitstream rbsp(_nal.decoded_rbsp() + 1, _nal.decoded_rbsp_size() - 1);
+			TSProgramElementaryStreamAnalyze<H264Sequence>::structure_get(rbsp);
+		}
 
-		
 		unsigned int nextbits =  ms.nextbits(32);
 		if((0xFFFFFF1F & nextbits) == 0x00000108)
 		{
-			ms.skipbits(32);
+			nal_get(ms);
 
-			_picture.get(ms);
+			fixed_memory_bitstream rbsp(_nal.decoded_rbsp() + 1, _nal.decoded_rbsp_size() - 1);
+			_picture.get(rbsp);
 
 			_has_picture = true;
 
-- 
2.43.0


From 6e8f76fab5a35e52c0e108c1821f8ba531c3ce64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:00 +0000
Subject: [PATCH 107/116] fix: samples of a joined file keep their time inside
 a segment that crosses files

---
 src/mg/media/mp4/mp4_fragments.fl | 10 ++++++++++
 src/mg/media/mp4fragmented.h      | 24 +++++++++++++++++++++++-
 src/mgcli/mp4info.cpp             |  3 +++
 3 files changed, 36 insertions(+), 1 deletion(-)

diff --git a/src/mg/media/mp4/mp4_fragments.fl b/src/mg/media/mp4/mp4_fragments.fl
index 593396f..f9900ad 100644
--- a/src/mg/media/mp4/mp4_fragments.fl
+++ b/src/mg/media/mp4/mp4_fragments.fl
@@ -153,6 +153,16 @@ public:
 
           _duration += s_duration;
       }
+
+      //the last sample lasts longer
+      void extend(unsigned int s_duration)
+      {
+          if(_samples.size())
+          {
+              _samples.back()->sample_duration += s_duration;
+              _duration += s_duration;
+          }
+      }
       
       
 %}
diff --git a/src/mg/media/mp4fragmented.h b/src/mg/media/mp4fragmented.h
index 627017c..dae84ce 100644
--- a/src/mg/media/mp4fragmented.h
+++ b/src/mg/media/mp4fragmented.h
@@ -333,6 +333,16 @@ public:
 	}
 
 	
+	//the last sample lasts until the next one is decoded
+	void extend_to(uint64_t decoding_time)
+	{
+		const uint64_t next = TIMESCALE(decoding_time, _timescale);
+		const uint64_t end  = _baseMediaDecodeTime + _trun.get_duration();
+
+		if(next > end)
+			_trun.extend(static_cast<uint32_t>(next - end));
+	}
+
 	virtual void add_sample(
 		  int stream_id
 		, BYTE * body
@@ -620,6 +630,9 @@ public:
 
 		CBuffer<unsigned char> body(1024);
 
+		//samples behind those of another file start at base_media_decode_time
+		bool joined = m4f.has_baseMediaDecodeTime() && UINT64_MAX != base_media_decode_time;
+
 		 while(reader.next_file_chunks(sample))
 				 {
 					 if(sample.stream == stream_id)
@@ -670,6 +683,12 @@ public:
 								 p_callback->using_sample_in_fragment(sample, composition_time, decoding_time);
 #endif
 
+							  if(joined)
+							  {
+								  m4f.extend_to(base_media_decode_time - (composition_time - decoding_time));
+								  joined = false;
+							  }
+
 							  m4f.add_sample(sample.stream
 								 , body.get()
 								 , static_cast<uint32_t>(sample.size)
@@ -927,6 +946,7 @@ public:
 					  , unsigned char * p_key = NULL
 					  , DWORD senc_flags = 0
                       , uint64_t timescale = 1000*10000
+					  , uint64_t base_media_decode_time_2 = UINT64_MAX
 					  )
 {
 	
@@ -964,7 +984,7 @@ public:
 							, stream_id
 							, start_time_2
 							, end_time_2
-							, base_media_decode_time
+							, base_media_decode_time_2
 							, p_callback
 							, p_key);
 					//<-
@@ -1001,6 +1021,7 @@ public:
 		, unsigned char * p_key = NULL
 		, DWORD senc_flags = 0
         , uint64_t timescale = 1000*10000
+		, uint64_t base_media_decode_time_2 = UINT64_MAX
 		)
 	{
 		MP4Reader reader;
@@ -1027,6 +1048,7 @@ public:
 			, p_key
 			, senc_flags
             , timescale
+            , base_media_decode_time_2
         );
 	}
 };
diff --git a/src/mgcli/mp4info.cpp b/src/mgcli/mp4info.cpp
index 294c21b..db25a3a 100644
--- a/src/mgcli/mp4info.cpp
+++ b/src/mgcli/mp4info.cpp
@@ -4281,6 +4281,7 @@ int produce_m4f_chunk_cross(  int stream_id
 					  , unsigned char * p_key = NULL
 					  , DWORD senc_flags = 0
                       , uint64_t timescale = 10000000
+					  , uint64_t base_media_decode_time_2 = UINT64_MAX
 					  )
 {
 	std::wcout << track_id
@@ -4327,6 +4328,7 @@ int produce_m4f_chunk_cross(  int stream_id
 				, p_key
 				, senc_flags
                 , timescale
+				, base_media_decode_time_2
 				);
 
 	file.close();
@@ -5667,6 +5669,7 @@ int _tmain(int argc, TCHAR* argv[])
 										, (s->is_video())?pKey:((audio_encrypted)?pKey:NULL)
 										, (s->is_video())?video_senc_flags:senc_flags
                                         , (s->is_video())?videotimescale:audiotimescale
+										, cp.computed_time_2
 										);
 								}
 								else
-- 
2.43.0


From ae04015524702553adffd7663e4bdd54f3fe05b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:00 +0000
Subject: [PATCH 108/116] fix: the lengths in a PlayReady header count two
 bytes a character

---
 src/mgcli/cenc_provider.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mgcli/cenc_provider.h b/src/mgcli/cenc_provider.h
index 5ac1523..e3041de 100644
--- a/src/mgcli/cenc_provider.h
+++ b/src/mgcli/cenc_provider.h
@@ -241,7 +241,8 @@ public:
 		_wmheader += _url;
 		_wmheader += _T("</LA_URL><CUSTOMATTRIBUTES><IIS_DRM_VERSION>7.1.1565.4</IIS_DRM_VERSION></CUSTOMATTRIBUTES></DATA></WRMHEADER>");
 				
-		uint32_t  size = 10 + (sizeof(wchar_t) *_wmheader.size());
+		//the header is stored as UTF-16, whatever the size of wchar_t is
+		uint32_t  size = 10 + (sizeof(uint16_t) *_wmheader.size());
 
 		/*
 		_body.prepare(size);
@@ -270,7 +271,7 @@ public:
 		_body.little_putbits(1, 16);
 
 		_body.little_putbits(1, 16);
-		_body.little_putbits((sizeof(wchar_t) * _wmheader.size()), 16);
+		_body.little_putbits((sizeof(uint16_t) * _wmheader.size()), 16);
 
 		const wchar_t* pchar = _wmheader;
 
-- 
2.43.0


From cde296807d9a12e61c9b8d6d30a8ae8fe80cbdd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:30 +0000
Subject: [PATCH 109/116] fix: the keys of a JSON web key set are written in
 the url form of base 64

---
 src/mgcli/cenc_provider.h | 37 +++++++++++++++++++++++++++++++++++--
 1 file changed, 35 insertions(+), 2 deletions(-)

diff --git a/src/mgcli/cenc_provider.h b/src/mgcli/cenc_provider.h
index e3041de..dff4591 100644
--- a/src/mgcli/cenc_provider.h
+++ b/src/mgcli/cenc_provider.h
@@ -442,12 +442,45 @@ public:
 		   vContentProtection.push_back(cp);
 	}
 
+	//the form of base 64 used by JSON web keys: the url alphabet and no padding
+	static CstringT<char> Base64Url(const unsigned char * pbuffer, uint32_t buffer_size)
+	{
+		static const char letters[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
+
+		CstringT<char> str64;
+
+		for(uint32_t i = 0; i < buffer_size; i += 3)
+		{
+			uint32_t left = buffer_size - i;
+
+			uint32_t bits = static_cast<uint32_t>(pbuffer[i]) << 16;
+
+			if(1 < left)
+				bits |= static_cast<uint32_t>(pbuffer[i + 1]) << 8;
+
+			if(2 < left)
+				bits |= pbuffer[i + 2];
+
+			char four[] = { letters[(bits >> 18) & 0x3F], letters[(bits >> 12) & 0x3F], 0, 0, 0 };
+
+			if(1 < left)
+				four[2] = letters[(bits >> 6) & 0x3F];
+
+			if(2 < left)
+				four[3] = letters[bits & 0x3F];
+
+			str64 += four;
+		}
+
+		return str64;
+	}
+
 	Cstring json_key(unsigned char * pKey)
 	{
 			Cstring json = _T("{ \"keys\":[{\"kid\" : \"");
-					json += PlayReadyCencProvider::Base64(_kid, BLOCK_LEN, ATL_BASE64_FLAG_NOPAD);
+					json += Base64Url(_kid, BLOCK_LEN);
 					json += _T("\" , \"k\" : \"");
-					json += PlayReadyCencProvider::Base64(pKey, BLOCK_LEN, ATL_BASE64_FLAG_NOPAD);
+					json += Base64Url(pKey, BLOCK_LEN);
                     json += _T("\"}]}");
 
 			return json;
-- 
2.43.0


From 85290e9b947bb6cf64b10713259c863544759cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:29 +0000
Subject: [PATCH 110/116] fix: all bits of the initialization vectors of
 fragments are random

---
 src/mg/media/mp4fragmented.h | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/mg/media/mp4fragmented.h b/src/mg/media/mp4fragmented.h
index dae84ce..26648eb 100644
--- a/src/mg/media/mp4fragmented.h
+++ b/src/mg/media/mp4fragmented.h
@@ -108,17 +108,27 @@ class CMP4Fragment
 #define CLEARINITSIZE 96
 
 	void fillrand(unsigned char *buf, const int len)
-	{   static unsigned long a[2], mt = 1, count = 4;
+	{   static uint32_t      a[2], mt = 1, count = 4;
 		static unsigned char r[4];
 		int                  i;
 
-		if(mt) { mt = 0; *(unsigned long long*)a = read_tsc(); }
+		if(mt)
+		{
+			uint64_t tsc = read_tsc();
+
+			mt = 0;
+
+			//none of the two may be zero
+			a[0] = static_cast<uint32_t>(tsc) | 1;
+			a[1] = static_cast<uint32_t>((tsc * 0x9E3779B97F4A7C15ULL) >> 32) | 1;
+		}
 
 		for(i = 0; i < len; ++i)
 		{
 			if(count == 4)
 			{
-				*(unsigned long*)r = RAND(a[0], a[1]);
+				uint32_t v = RAND(a[0], a[1]);
+				::memcpy(r, &v, 4);
 				count = 0;
 			}
 
-- 
2.43.0


From 06d7c782db9b28e587affaad269b7c9137047c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:28 +0000
Subject: [PATCH 111/116] fix: HLS segments do not cross joined files

---
 src/mg/media/mp4dynamic.cpp | 5 +----
 src/mg/media/mp4dynamic.h   | 3 +++
 src/mg/media/tsinfo.cpp     | 3 +++
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/mg/media/mp4dynamic.cpp b/src/mg/media/mp4dynamic.cpp
index 7b9a37a..f10aa93 100644
--- a/src/mg/media/mp4dynamic.cpp
+++ b/src/mg/media/mp4dynamic.cpp
@@ -447,10 +447,7 @@ void CMP4DynamicDiscreate::publish_no_random_stream(
 
 				
 			}
-			else
-			{
-				p = count - 1;
-			}
+			//else the last fragment of the file has the samples left
 		}
 
 
diff --git a/src/mg/media/mp4dynamic.h b/src/mg/media/mp4dynamic.h
index 1370541..a046959 100644
--- a/src/mg/media/mp4dynamic.h
+++ b/src/mg/media/mp4dynamic.h
@@ -430,6 +430,9 @@ public:
 	void set_fragment_tolerance(uint64_t fragment_tolerance)
 	{_fragment_tolerance = fragment_tolerance;}
 
+	void set_generate_only_full_fragment(bool only_full_fragment)
+	{_generate_only_full_fragment = only_full_fragment;}
+
 
 };
 
diff --git a/src/mg/media/tsinfo.cpp b/src/mg/media/tsinfo.cpp
index 79d63f4..20c547e 100644
--- a/src/mg/media/tsinfo.cpp
+++ b/src/mg/media/tsinfo.cpp
@@ -776,6 +776,9 @@ int do_hls_mux(console_command &c, std::ostream & ost)
 
 				mp4edit.set_fragment_length(segment_size);
 				mp4edit.set_fragment_tolerance(fragment_tolerance);
+
+				//every segment is made from one file
+				mp4edit.set_generate_only_full_fragment(false);
 			
  			
 			ost << _T("Process Body") << std::endl;
-- 
2.43.0


From 493b28bb1775e535b648669a277be30a59dcba43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:05 +0000
Subject: [PATCH 112/116] fix: an HLS segment at the end of an input stops at
 the end time of that input

---
 src/mg/media/tsinfo.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/mg/media/tsinfo.cpp b/src/mg/media/tsinfo.cpp
index 20c547e..19e692e 100644
--- a/src/mg/media/tsinfo.cpp
+++ b/src/mg/media/tsinfo.cpp
@@ -785,6 +785,9 @@ int do_hls_mux(console_command &c, std::ostream & ost)
 
 			int path_for_input = npaths / cnt;
 
+			//segments up to the end of each input, by stream
+			std::vector<std::map<int, int> > input_points(cnt);
+
 			int path_idx    = 0;
 			int bitrate_idx = 0;
 
@@ -828,6 +831,9 @@ int do_hls_mux(console_command &c, std::ostream & ost)
 					, ditem.size()
 					); 
 
+				for(int i = 0; i < mp4edit.get_presentation().Count(); i++)
+					input_points[idx][i] = mp4edit.get_presentation().get_by_index(i)->get_point_count();
+
 				Ctime now;
 
 				uint64_t total_time = now.TotalHNano() - start_time.TotalHNano();
@@ -1018,6 +1024,17 @@ int do_hls_mux(console_command &c, std::ostream & ost)
 								//the last point of a file is its last sample: go on to the end of it
 								if(s->is_video())
 									end_time = composition_time + end_computed;
+
+								//the audio may be longer than the video: nothing behind the end of the input
+								unsigned int input = 0;
+
+								while(input + 1 < cnt && input_points[input][s->id] <= sequence)
+									input++;
+
+								uint64_t input_end = c.get_integer64_value(_T("endtime"), input);
+
+								if(0 < input_end && end_time > input_end)
+									end_time = input_end;
 								
 								Cstring out_chunk_file = out_dir.clone();
 
-- 
2.43.0


From 1f576ca41087236392172447515e81152a321030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:26 +0000
Subject: [PATCH 113/116] fix: the list of key frames of a movie without a key
 frame table or with short groups

---
 src/mg/media/mp4parse.h | 23 +++++++++++++++++++++++
 src/mgcli/mp4info.cpp   | 18 +++++++++---------
 2 files changed, 32 insertions(+), 9 deletions(-)

diff --git a/src/mg/media/mp4parse.h b/src/mg/media/mp4parse.h
index 7b16763..f8ef36e 100644
--- a/src/mg/media/mp4parse.h
+++ b/src/mg/media/mp4parse.h
@@ -1313,6 +1313,18 @@ public:
 		 return IFrame_number;
 	  }
 
+	 //the key frame after a sample, or that sample when there is none
+	 uint64_t get_next_IFrame_number(const uint64_t sample_number) 
+	 {	  
+		  for(uint64_t next = sample_number + 1; next < get_sample_count(); next++)
+		  {
+			  if(is_IFrame(next))
+				  return next;
+		  }
+
+		  return sample_number;
+	  }
+
 	 uint64_t get_next_IFrame_number() 
 	 {	  
 		  uint64_t IFrame_number(0);
@@ -2340,6 +2352,11 @@ public:
 		 return _time_manager.get_IFrame_number(composition_time);
 	}
 
+	uint64_t get_next_IFrame_number(const uint64_t sample_number)
+	{
+		return _time_manager.get_next_IFrame_number(sample_number);
+	}
+
 	uint64_t get_next_IFrame_time()
 	{
 		uint64_t sample = _time_manager.get_next_IFrame_number();
@@ -2827,6 +2844,12 @@ public:
 	   return _streams[stream_number]->get_IFrame_number(time);
 	}
 
+	uint64_t get_next_IFrame_number(const uint64_t sample_number, const unsigned int stream_number)
+	{
+	   _ASSERTE(stream_number < _streams.size());
+	   return _streams[stream_number]->get_next_IFrame_number(sample_number);
+	}
+
 	uint64_t get_next_IFrame_time(const unsigned int stream_number)
 	{
 	   _ASSERTE(stream_number < _streams.size());
diff --git a/src/mgcli/mp4info.cpp b/src/mgcli/mp4info.cpp
index db25a3a..12d00fd 100644
--- a/src/mgcli/mp4info.cpp
+++ b/src/mgcli/mp4info.cpp
@@ -2944,8 +2944,6 @@ int gop_list( uint64_t start
 	uint64_t time     = reader.get_composition_time(sample, video);
     uint64_t decoding = reader.get_decoding_time(sample, video);
 
-	uint64_t next_time = UINT64_MAX;
-
 	std::wcout << video << _T("\t") 
 		<< sample << _T("\t") << HNS(time) 
 			<< _T("\t")
@@ -2955,20 +2953,22 @@ int gop_list( uint64_t start
 
 			<< std::endl;
 
-	while(next_time > time && time < end)
+	while(time < end)
 	{
-		if(UINT64_MAX > next_time)
-		   time = next_time;
+		const uint64_t next = reader.get_next_IFrame_number(sample, video);
+
+		if(next == sample)
+			break;
 
-		next_time = reader.get_next_IFrame_time(video);
-		sample    = reader.get_IFrame_number(next_time, video);
+		sample   = next;
+		time     = reader.get_composition_time(sample, video);
 		decoding = reader.get_decoding_time(sample, video);
                 
 
 		std::wcout << video << _T("\t") 
-			<< sample << _T("\t") << HNS(next_time) 
+			<< sample << _T("\t") << HNS(time) 
 			<< _T("\t")
-			<< next_time
+			<< time
 			<< _T("\t")
 			<< HNS(decoding)
 			<< std::endl;
-- 
2.43.0


From a935cdab7229ae40638232a97fba1d55a69ae881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:26 +0000
Subject: [PATCH 114/116] fix: the list of samples without start and end times

---
 src/mgcli/mp4info.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/mgcli/mp4info.cpp b/src/mgcli/mp4info.cpp
index 12d00fd..0877219 100644
--- a/src/mgcli/mp4info.cpp
+++ b/src/mgcli/mp4info.cpp
@@ -5719,9 +5719,18 @@ int _tmain(int argc, TCHAR* argv[])
 			if(c.command_specified(_T("stream")))
 				stream = c.get_integer_value(_T("stream"));
 
+			uint64_t start = 0;
+			uint64_t end = 0;
+
+			if (c.command_specified(_T("starttime")))
+				start = c.get_integer64_value(_T("starttime"));
+
+			if (c.command_specified(_T("endtime")))
+				end = c.get_integer64_value(_T("endtime"));
+
 			pick_samples(
-				      c.get_integer64_value(_T("starttime"))
-					, c.get_integer64_value(_T("endtime"))
+				      start
+					, end
 					, mp4
 					, stream
 				);
-- 
2.43.0


From 3393aa6c5d328ad188ff5c887a5ee254bde4383d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:52 +0000
Subject: [PATCH 115/116] fix: keys with bytes that cannot be printed are
 converted to base 64 and back

---
 src/mg/alxstring.h    | 2 ++
 src/mgcli/mp4info.cpp | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mg/alxstring.h b/src/mg/alxstring.h
index 57fac57..71be1f6 100644
--- a/src/mg/alxstring.h
+++ b/src/mg/alxstring.h
@@ -978,6 +978,8 @@ inline Cstring hexformat(const unsigned char *buffer
                         out.append(_T("\\r"));
                     else if(c == 0)
                         out.append(_T("\\0"));
+                    else if(c < 0x20 || c > 0x7e)
+                        out.append(_T("."));
                     else
 					    out.append_format(_T("%c"), c);
 					break;
diff --git a/src/mgcli/mp4info.cpp b/src/mgcli/mp4info.cpp
index 0877219..fc9bc2a 100644
--- a/src/mgcli/mp4info.cpp
+++ b/src/mgcli/mp4info.cpp
@@ -4660,7 +4660,7 @@ int _tmain(int argc, TCHAR* argv[])
 
 				k.extract_binary_hex(buffer.get(), size);
 
-				std::wcout << reinterpret_cast<char*>(buffer.get()) << std::endl;
+				std::wcout << hexformat(buffer.get(), ST_U32(size)) << std::endl;
 
 				Cstring base64;
 				base64 += PlayReadyCencProvider::Base64(buffer.get(), size);
-- 
2.43.0


From c65090cc8db53a181521594c50a9d7093913a9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:38 +0000
Subject: [PATCH 116/116] fix: the list of boxes behind a sample description
 with a pixel aspect or protection box

---
 src/mgcli/mp4info.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mgcli/mp4info.cpp b/src/mgcli/mp4info.cpp
index fc9bc2a..b1ca6ac 100644
--- a/src/mgcli/mp4info.cpp
+++ b/src/mgcli/mp4info.cpp
@@ -1308,7 +1308,6 @@ int docommand(CMP4 &mp4, const STDTSTRING command, bool extended = false)
 						  {
 							  CleanApertureBox clap;
 							  mp4.parse_clap_box(clap);
-							  mp4.parse_box(config_box);
 
 							  std::wcout 
 								  << _T("CLAP BOX") 
@@ -1319,7 +1318,6 @@ int docommand(CMP4 &mp4, const STDTSTRING command, bool extended = false)
 						  {
 							  PixelAspectRatioBox pasp;
 							  mp4.parse_pasp_box(pasp);
-							  mp4.parse_box(config_box);
 
 							  std::wcout 
 								  << _T("PASP BOX ")
@@ -1416,7 +1414,7 @@ int docommand(CMP4 &mp4, const STDTSTRING command, bool extended = false)
 
 						  if(box_sinf == config_box.get_type())
 						  {
-							  dobox(mp4, _T("esds"), true);
+							  dobox(mp4, _T("esds"), true, false, sample_pos_end);
 							  config_box = mp4.get_box();
 						  }
 
@@ -1514,6 +1512,8 @@ int docommand(CMP4 &mp4, const STDTSTRING command, bool extended = false)
                    std::wcout << _T("Unknown handler type ") << sample_box.get_type_string() << std::endl;
                    return 12;
                }
+
+			   mp4.set_position(sample_pos_end); //whatever the entry has behind what is listed
 		   }//for
 		   }//command
 		   else if(command == _T("btrt"))
-- 
2.43.0

