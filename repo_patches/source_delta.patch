From 3d9877fbdcdaa58247288d41c3b601a24886e27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:07 +0000
Subject: [PATCH 01/72] fix: bitstream accessed up to 4 bytes after the end of
 its buffer

---
 src/mg/core/bitstream.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mg/core/bitstream.h b/src/mg/core/bitstream.h
index 23aa4df..ee18fe9 100644
--- a/src/mg/core/bitstream.h
+++ b/src/mg/core/bitstream.h
@@ -48,6 +48,8 @@
 #define DEFAULT_FILE_PAGE 8*1024 //8k
 #endif
 
+#define BITSTREAM_PAD 8 //readable and writable bytes after the end of the buffer
+
 #define BITSTREAM_READ_DEBUG 0
 #define BITSTREAM_POSITION_DEBUG 0
 
@@ -385,9 +387,11 @@ class bitstream_base : public Ibitstream_cb
 
 	void init(uint32_t buf_len, bool load = true)
 	{
-		_buf        = new unsigned char[buf_len];
+		//bits are moved 5 bytes at the time, even when only the first is in use
+		_buf        = new unsigned char[buf_len + BITSTREAM_PAD];
 		_buf_size   = buf_len;
         _shadow_buf = new unsigned char[buf_len];
+		::memset(_buf, 0, buf_len + BITSTREAM_PAD);
 		_shadow_len = 0;
 		_buf_len    = 0;
 
-- 
2.43.0


From bd4ee6b0a1d03b29d8f5c1a7ac2b308542ec80b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:46 +0000
Subject: [PATCH 02/72] fix: bitstream delivered wrong bytes after part of the
 shadow buffer was consumed

---
 src/mg/core/bitstream.h | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/mg/core/bitstream.h b/src/mg/core/bitstream.h
index ee18fe9..9d4cc0f 100644
--- a/src/mg/core/bitstream.h
+++ b/src/mg/core/bitstream.h
@@ -1218,6 +1218,9 @@ template<class Type> void bitstream_base<Type>::fill_buf()
 				memcpy(_buf + u, _shadow_buf, n);
 				_shadow_len -= n;
 				_buf_len += n;
+
+				//what is left is always at the beginning of the shadow
+				memmove(_shadow_buf, _shadow_buf + n, _shadow_len);
 			}
 			else
 			{
@@ -1257,13 +1260,6 @@ template<class Type> void bitstream_base<Type>::read_cb(const unsigned char * p_
 
 			if (read)
 			{
-				
-				if (_shadow_len)
-				{
-					//copy end to beginning
-					memcpy(_shadow_buf, _shadow_buf + (_buf_size - _shadow_len), _shadow_len);
-				}
-
 				memcpy(_shadow_buf + _shadow_len, p_val, read);
 
 				_shadow_len += read;
-- 
2.43.0


From ba4bfc355095a564410b42f98378a451dacab4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:46 +0000
Subject: [PATCH 03/72] fix: bitstream reported the end of data while the last
 read was traveling

---
 src/mg/core/bitstream.h | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/mg/core/bitstream.h b/src/mg/core/bitstream.h
index 9d4cc0f..a1bd1d9 100644
--- a/src/mg/core/bitstream.h
+++ b/src/mg/core/bitstream.h
@@ -569,12 +569,14 @@ public:
 		
 	virtual bool atend()
 	{
-		if (_p_cb->eof())
-			if(!_shadow_len)
-				if ((_buf_len << 3) <= _cur_bit)
-					return true;
+		if ((_buf_len << 3) > _cur_bit)
+			return false;
 
-		return false;
+		//the last read could still be traveling
+		if (!_shadow_len)
+			wait();
+
+		return (!_shadow_len) && _p_cb->eof();
 	}
 	
 	inline bool has_bits(int nbit)
@@ -1165,15 +1167,16 @@ public:
 
 template<class Type> void bitstream_base<Type>::fill_buf()
 {
-	if ((!_shadow_len) && _p_cb->eof())
-		throw EndOfData(_T(__FILE__), __LINE__);
-
 	_ASSERTE((_cur_bit >> 3) <= _buf_size);
 
+	//the last read could still be traveling
 	if (_shadow_len != _buf_size) {
 		wait();
 	}
 
+	if ((!_shadow_len) && _p_cb->eof())
+		throw EndOfData(_T(__FILE__), __LINE__);
+
 	{
 		auto_lock l(_load_lock);
 
-- 
2.43.0


From 02676bbae239702e33d8d1016b4c42dff81fd50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:35 +0000
Subject: [PATCH 04/72] fix: bitstream returned garbage instead of throwing
 when too few bits remained

---
 src/mg/core/bitstream.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mg/core/bitstream.h b/src/mg/core/bitstream.h
index a1bd1d9..05b473a 100644
--- a/src/mg/core/bitstream.h
+++ b/src/mg/core/bitstream.h
@@ -1324,7 +1324,10 @@ template<class Type> uint32_t  bitstream_base<Type>::_nextbits(int n)
 	if (_cur_bit + n >(_buf_len << 3))
 	{
 		fill_buf();
-		_ASSERTE(_cur_bit == 0);
+
+		//what was left is not enough
+		if (_cur_bit + n > (_buf_len << 3))
+			throw EndOfData(__FILE__, __LINE__);
 	}
 
 	// starting byte in buffer
-- 
2.43.0


From 172da2cce84cfea105b234392a585a9740fa6d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:35 +0000
Subject: [PATCH 05/72] fix: bitstream read threw end of data on a successful
 read ending at the end

---
 src/mg/core/bitstream.h | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/mg/core/bitstream.h b/src/mg/core/bitstream.h
index 05b473a..7bfce74 100644
--- a/src/mg/core/bitstream.h
+++ b/src/mg/core/bitstream.h
@@ -993,8 +993,6 @@ private:
 
 			this->_cur_bit += (size << 3);
 			this->_tot_bits += (size << 3);
-
-			this->_nextbits(32); //reload buffer if needed
 		}
 		else /*if ((available + this->_shadow_len) > size)*/
 		{
@@ -1005,7 +1003,7 @@ private:
 			this->_tot_bits += (available << 3);
 
 			if(!this->atend())
-				this->_nextbits(32); //reload buffer if needed
+				this->fill_buf(); //reload buffer
 			else
 			{
 				//we are at the end
@@ -1028,9 +1026,6 @@ private:
 			this->_cur_bit += (todo << 3);
 			this->_tot_bits += (todo << 3);
 
-			if(!this->atend())
-				this->_nextbits(32); //reload buffer if needed
-			
 			(*read) = available + todo;
 
 		}
-- 
2.43.0


From f040e414da47871faf601f2b957577ba376f1fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:35 +0000
Subject: [PATCH 06/72] fix: bitstream skip and align moved twice, hung at the
 end and overran while writing

---
 src/mg/core/bitstream.h | 73 +++++++++++++----------------------------
 1 file changed, 22 insertions(+), 51 deletions(-)

diff --git a/src/mg/core/bitstream.h b/src/mg/core/bitstream.h
index 7bfce74..5192b45 100644
--- a/src/mg/core/bitstream.h
+++ b/src/mg/core/bitstream.h
@@ -512,6 +512,8 @@ protected:
 			_skipbits(s);
 		}
 		while (_tot_bits % n) {
+			if (_load && atend())
+				throw EndOfData(__FILE__, __LINE__);
 			s += 8;
 			_skipbits(8);
 		}
@@ -909,68 +911,37 @@ protected:
 
 	virtual void _skipbits(uint16_t n)
 	{
-		//_getbits(n); 
-
-		mg::core::auto_lock l(_load_lock);
-
-		uint64_t bit_len = _buf_len << 3;
-
-        _ASSERTE(bit_len >= _cur_bit);
+		if (!_load)
+		{
+			//we are writing: what we skip is zero
+			for (; n > 32; n -= 32)
+				_putbits(0, 32);
 
-		uint64_t bit_ava = bit_len - _cur_bit;
+			_putbits(0, n);
+			return;
+		}
 
-		if (bit_ava < n)
+		while (n)
 		{
-			//we do not have enough bits
-
-			uint64_t bit_sha = _shadow_len << 3;
+			uint64_t bit_ava = (_buf_len << 3) - _cur_bit;
 
-			if ((bit_ava + bit_sha) > n)
+			if (bit_ava >= n)
 			{
-				_cur_bit += bit_ava;
-				_nextbits(32); //move at the beginning of the _shadow and async reload shadow
-				_ASSERTE(_cur_bit == 0);
-				_ASSERTE((bit_sha >> 3) == _buf_len);
-				_ASSERTE((n - bit_ava) < (_buf_len << 3));
-				_cur_bit += (n - bit_ava);
+				_cur_bit += n;
 				_tot_bits += n;
+				return;
 			}
-            else if(has_bits(n))
-			{
-				uint64_t pos = _getpos();
-				         pos += n;
-
-						 uint64_t remain = pos % 8;
-
-						 _set_position((pos + n) >> 3);
 
-						 _ASSERTE(_cur_bit == 0);
+			_cur_bit += bit_ava;
+			_tot_bits += bit_ava;
+			n -= static_cast<uint16_t>(bit_ava);
 
-                         _ASSERTE((_buf_len << 3) >= (_cur_bit + remain));
-
-						 _cur_bit += remain;
-						 _tot_bits += remain;
-						 
-			}
-            else
-            {
-                //we are at the end
-                if(!atend())
-                {
-                    _cur_bit += bit_ava;
-				    _tot_bits += bit_ava; 
-                }
-
-                _ASSERTE(atend());
-            }
+			//skipping over the end stops at the end
+			if (atend())
+				return;
 
+			fill_buf();
 		}
-		else
-		{
-			_cur_bit += n;
-			_tot_bits += n;
-		}
-
 	}
 private:
 
-- 
2.43.0


From 74f1f329d98d4b02ed1899abe58eb7da20aeb163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:35 +0000
Subject: [PATCH 07/72] fix: bitstream repositioning landed at the wrong offset
 near buffer and stream ends

---
 src/mg/core/bitstream.h | 151 +++++++++-------------------------------
 1 file changed, 34 insertions(+), 117 deletions(-)

diff --git a/src/mg/core/bitstream.h b/src/mg/core/bitstream.h
index 5192b45..19e6f89 100644
--- a/src/mg/core/bitstream.h
+++ b/src/mg/core/bitstream.h
@@ -707,135 +707,52 @@ public:
 	
 	virtual void _set_position_read(uint64_t rhs) {
 
-		bool do_reload = false;
-		{
-			if (0 == _shadow_len && ((!_p_cb->eof()) || _pending_read) )
-			{
-				wait();
-			}
+		//make sure no read is traveling while we move
+		wait();
 
-			mg::core::auto_lock l(_load_lock);
-			
-			//buffer start
-			uint64_t epos = _p_cb->get_position();
-            
-			uint64_t kpos  = epos;
-			kpos -= _buf_len;
-			kpos -= _shadow_len;
-			uint64_t pos = kpos + (_cur_bit >> 3);
+		uint64_t epos = _p_cb->get_position();          //end of what we have
+		uint64_t kpos = epos - _shadow_len - _buf_len;  //beginning of what we have
 
-			_ASSERTE((_cur_bit >> 3) <= _buf_size);
+		FDBGC5(BITSTREAM_POSITION_DEBUG
+			, "SET-POSITION\t%" PRIu64 "\t%" PRIu64 "\t%" PRIu32 "\t%" PRIu32 "\t%" PRIu32 ""
+			, rhs, epos, _buf_len, _shadow_len, _buf_size);
 
-			FDBGC6(BITSTREAM_POSITION_DEBUG
-				, "SET-POSITION\t%" PRIu64 "\t%" PRIu64 "\t%" PRIu64 "\t%" PRIu32 "\t%" PRIu32 "\t%" PRIu32 ""
-				, rhs, epos, pos, _buf_len, _shadow_len, _buf_size);
+		//move to the end
+		if (_p_cb->eof() && epos < rhs)
+			rhs = epos;
 
-			if ((rhs < epos) //already read
-				&& (kpos <= rhs)
-				)
+		if (kpos <= rhs && (rhs < epos || (rhs == epos && _p_cb->eof())))
+		{
+			//we can move in buffer
+			if (rhs - kpos > _buf_len)
 			{
-
-
-
-				//we can move in buffer
-				uint64_t cur_ava = (_buf_len - (_cur_bit >> 3));
-				uint64_t advance = 0;
-				
-				if(rhs > pos)
-					advance = rhs - pos;
-
-				if (advance > cur_ava)
-				{
-					
-
-					_ASSERTE((advance - cur_ava) <= _shadow_len);
-
-					_cur_bit  += (cur_ava << 3);
-					_tot_bits += (cur_ava << 3);
-
-					//force buffer switch
-					this->_nextbits(32);
-
-					_ASSERTE(0 == _cur_bit);
-					//_ASSERTE(0 == _shadow_len);
-
-					uint64_t n = ((advance - cur_ava) << 3);
-
-					_ASSERTE(((_cur_bit + n) >> 3) <= _buf_len);
-
-					_cur_bit  += n;
-					_tot_bits += n;
-
-					_ASSERTE((_cur_bit >> 3) <= _buf_size);
-				}
-				else if ((rhs < pos) && rhs >= (kpos))
-				{
-					//move backward
-					uint64_t n = pos - rhs;
-
-					_ASSERTE((_cur_bit >> 3) >= n);
-					_ASSERTE((_tot_bits >> 3) >= n);
-
-					_cur_bit -= (n << 3);
-
-					if (_tot_bits < (n << 3))
-						_tot_bits = 0;
-					else
-						_tot_bits -= (n << 3);
-
-					_ASSERTE((_cur_bit >> 3) <= _buf_size);
-
-				}
-				else
-				{
-					//move in current buffer
-					uint64_t n = (advance << 3);
-
-					_ASSERTE(((_cur_bit + n) >> 3) <= _buf_len);
-
-					_cur_bit += n;
-					_tot_bits += n;
-
-					_ASSERTE((_cur_bit >> 3) <= _buf_size);
-
-				}
+				//force buffer switch
+				kpos += _buf_len;
+				_cur_bit = (_buf_len << 3);
+				fill_buf();
 			}
-            else if(_p_cb->eof() && epos < rhs)
-            {
-                //move to the end
-                if(pos < epos)
-                {
-                    uint64_t n = (epos - pos) << 3;
-                    _cur_bit += n;
-                    _tot_bits += n;
-
-                    _ASSERTE((_cur_bit >> 3) <= _buf_size);
-                }
-            }
-			else
-			{
-                
-
-				//reset
-                _p_cb->set_position(rhs);
-				_tot_bits = rhs << 3;
 
-				do_reload = true;
-
-				FDBGC3(BITSTREAM_READ_DEBUG
-					, "SET-POSITION-RELOAD\t%" PRIu64 "\t%" PRIu64 "\t%" PRIu64 ""
-					, rhs, epos, pos);
-
-			}
+			_ASSERTE(rhs - kpos <= _buf_len);
 
+			_cur_bit  = (rhs - kpos) << 3;
+			_tot_bits = rhs << 3;
 		}
+		else
+		{
+			//reset
+			_p_cb->set_position(rhs);
+			_tot_bits = rhs << 3;
+
+			FDBGC2(BITSTREAM_READ_DEBUG
+				, "SET-POSITION-RELOAD\t%" PRIu64 "\t%" PRIu64 ""
+				, rhs, epos);
 
-		if(do_reload)
 			reload();
+		}
 
-		FDBGC5(BITSTREAM_POSITION_DEBUG
-			, "SET-POSITION-END\t%" PRIu64 "\t%" PRIu64 "\t%" PRIu32 "\t%" PRIu32 "\t%d"
-			, rhs, _cur_bit, _shadow_len, _buf_len, do_reload);
+		FDBGC4(BITSTREAM_POSITION_DEBUG
+			, "SET-POSITION-END\t%" PRIu64 "\t%" PRIu64 "\t%" PRIu32 "\t%" PRIu32 ""
+			, rhs, _cur_bit, _shadow_len, _buf_len);
 
 	}
 
-- 
2.43.0


From 53cfaea077f7be52998424b6b5f972d4f4de03ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:36 +0000
Subject: [PATCH 08/72] fix: signal_event lost wakeups, woke without a signal
 and was used after its owner destroyed it

---
 src/mg/core/thread.cpp | 45 +++++++++++++++++++++---------------------
 1 file changed, 23 insertions(+), 22 deletions(-)

diff --git a/src/mg/core/thread.cpp b/src/mg/core/thread.cpp
index c783ffe..d9740dd 100644
--- a/src/mg/core/thread.cpp
+++ b/src/mg/core/thread.cpp
@@ -98,56 +98,57 @@ signal_event::~signal_event()
 
 void signal_event::signal()
 {
+	auto_lock l(_crit_sec);
+
 	if (_signed)
 		return;
 
 	_signed = true;
 	//free anyone waiting
-	uv_cond_signal(&_cond_t);
+	uv_cond_broadcast(&_cond_t);
 
 }
 
 void signal_event::reset()
 {
+	auto_lock l(_crit_sec);
+
 	_signed = false;
 }
 
 void signal_event::wait()
 {
-	if (_signed)
-		return;
-	
-	_crit_sec.lock();
-	uv_cond_wait(&_cond_t, &_crit_sec._mutex);
-	_crit_sec.unLock();
+	auto_lock l(_crit_sec);
+
+	while (!_signed)
+		uv_cond_wait(&_cond_t, &_crit_sec._mutex);
 }
 
 bool signal_event::wait(uint32_t millyseconds)
 {
-	if (_signed)
-	   return true;
+	auto_lock l(_crit_sec);
 
 	double t = millyseconds;
 	         t *= 1e6;
 	
-	
-	bool work = true;
+	uint64_t end = uv_hrtime() + (uint64_t)t;
 
-	
-	if(!_crit_sec.try_lock())
-		return false;
-	int n = uv_cond_timedwait(&_cond_t, &_crit_sec._mutex, (uint64_t)t);
-	_crit_sec.unLock();
-	if(0 == n)
-	  return (_signed);
+	while (!_signed)
+	{
+		uint64_t now = uv_hrtime();
 
-	if(UV_ETIMEDOUT == n)
-	  return false;
+		if (now >= end)
+			return false;
 
-	UVCHECK(n);
+		int n = uv_cond_timedwait(&_cond_t, &_crit_sec._mutex, end - now);
 
-	return false;
+		if (UV_ETIMEDOUT == n)
+			return (_signed);
+
+		UVCHECK(n);
+	}
 
+	return true;
 }
 
 bool signal_event::is_signaled()
-- 
2.43.0


From ba5d3733e1cee051291f40f3d6e210298d9d9b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:52 +0000
Subject: [PATCH 09/72] fix: resource reference count was lost or freed twice
 when handles live in different threads

---
 src/mg/cresource.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mg/cresource.h b/src/mg/cresource.h
index 30e899d..6f836e2 100644
--- a/src/mg/cresource.h
+++ b/src/mg/cresource.h
@@ -24,6 +24,7 @@
 #include <new>
 
 #include <functional>
+#include <atomic>
 
 #pragma once
 
@@ -48,7 +49,7 @@ class CInternalResource
 private:
 
 	Type *m_pointer;
-	long m_iRefCnt;
+	std::atomic<long> m_iRefCnt;
 
 	std::function<void(Type*)> _cleanup;
 	
@@ -76,8 +77,7 @@ private:
 
 	virtual void release()
 	{
-		m_iRefCnt--;
-		if (0 == m_iRefCnt)
+		if (0 == --m_iRefCnt)
 		{
 			if (_cleanup)
 				_cleanup(m_pointer);
-- 
2.43.0


From b4b262c129e5253fcbdbdcf064027a5922945123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:35 +0000
Subject: [PATCH 10/72] fix: destroying a loop thread that was never started
 joined a garbage thread

---
 src/mg/core/thread.cpp | 2 ++
 src/mg/core/thread.h   | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mg/core/thread.cpp b/src/mg/core/thread.cpp
index d9740dd..384ffc5 100644
--- a/src/mg/core/thread.cpp
+++ b/src/mg/core/thread.cpp
@@ -185,6 +185,8 @@ void cthread::start()
 {
 	int n = uv_thread_create(&_thread_t, startThread, this);
 	UVCHECK(n);
+
+	_joined = false;
 }
 
 void cthread::stop()
diff --git a/src/mg/core/thread.h b/src/mg/core/thread.h
index 1d51ae9..a71e0ab 100644
--- a/src/mg/core/thread.h
+++ b/src/mg/core/thread.h
@@ -128,7 +128,7 @@ public:
 
 	void join();	
 
-	cthread() :_joined(false) {}
+	cthread() :_joined(true) {} //nothing to join until started
 
 };
 
-- 
2.43.0


From 4c5649d5e37ff116137fe88e4e3be70bb200982a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:23 +0000
Subject: [PATCH 11/72] fix: file operations were delivered out of order, with
 the wrong result, or not at all after an error

---
 src/mg/core/file.cpp | 149 ++++++++++++++++---------------------------
 1 file changed, 54 insertions(+), 95 deletions(-)

diff --git a/src/mg/core/file.cpp b/src/mg/core/file.cpp
index d7efaf5..a366d3d 100644
--- a/src/mg/core/file.cpp
+++ b/src/mg/core/file.cpp
@@ -26,6 +26,21 @@ __MGCORE_BEGIN_NAMESPACE
 #define FILE_DEBUG 0
 #define NEXT_FRONT_DEBUG 0
 
+//take away from the list the operation which has to be delivered next
+static struct_file_cb * next_front(std::forward_list<struct_file_cb *> & forward, uint32_t served)
+{
+	for (struct_file_cb * fcb : forward)
+	{
+		if (fcb->_sequence == served)
+		{
+			forward.remove(fcb);
+			return fcb;
+		}
+	}
+
+	return NULL;
+}
+
 void cfile::uv_file_cb(uv_fs_t* req)
 {
 	//std::cout << "file call back" << req->type << " " << req->result << std::endl;
@@ -49,116 +64,60 @@ void cfile::uv_file_cb(uv_fs_t* req)
 
 #endif
 	
-	if (fcb->_sequence > (*fcb->_p_served)
-		&& req->fs_type == UV_FS_READ
-		//&& 0 <= req->result
-		)
-	{
-		FDBGC2(NEXT_FRONT_DEBUG, "UNORDERED-READ-PUSH\t%u\t%u"
-			, fcb->_sequence
-			, (*fcb->_p_served)
-		);
-		//unordered read operation
-		fcb->_p_forward->push_front(fcb);
-
-		std::forward_list<struct_file_cb *>::iterator it = fcb->_p_forward->begin();
-
-		while (it != fcb->_p_forward->end()
-			&& (*it.operator->())->_sequence > (*fcb->_p_served))
-		{
-			it++;
-
-#ifdef _DEBUG
-			if (it != fcb->_p_forward->end())
-			{
-				FDBGC2(NEXT_FRONT_DEBUG, "UNORDERED-READ-LOOK\t%u\t%u"
-					, (*it.operator->())->_sequence
-					, (*fcb->_p_served)
-				);
-			}
-#endif
-		}
-
-		if (it == fcb->_p_forward->end())
-		{
-			//not found
-			FDBGC0(FILE_DEBUG, "UNORDERED-READ-NOT-FOUND");
-			return;
-		}
-
-		//switch
-		struct_file_cb * temp = (*it.operator->());
-
-		fcb->_p_forward->remove(temp);
-
-		fcb = temp;
-	
-	}
+	//operations are delivered in the order they were asked
+	std::forward_list<struct_file_cb *> * p_forward = fcb->_p_forward;
+	uint32_t * p_served = fcb->_p_served;
 
-	struct_file_cb * temp = NULL;
+	p_forward->push_front(fcb);
 
-	//loop for next item
-	//if (fcb->_p_forward->begin() != fcb->_p_forward->end())
-	
-	bool fcb_empty = fcb->_p_forward->empty();
-	
-	FDBGC3(FILE_DEBUG, "-**-FORW\t%d\t%d\t%d", (fcb_empty)?1:0, (fcb->_p_forward->empty())?11:10, 1);
+	fcb = next_front(*p_forward, *p_served);
 
-	if(fcb_empty)
+	if (NULL == fcb)
 	{
-		FDBGC0(FILE_DEBUG, "***EMPTY");
+		FDBGC0(FILE_DEBUG, "UNORDERED-READ-NOT-FOUND");
+		return;
 	}
-	
-	if(!fcb_empty)
-	{
-		//fcb->_p_forward->
-
-		_ASSERTE(!fcb->_p_forward->empty());
 
-		temp = fcb->_p_forward->front();  //(*fcb->_p_forward->begin().operator->());
-
-		FDBGC1(FILE_DEBUG, "---FORW\t%u", fcb->_p_forward->empty());
-
-		FDBGC3(NEXT_FRONT_DEBUG, "--RE-READ\t%u\t%u\t%u"
-			, (*fcb->_p_served)
-			, temp->_sequence
-			, fcb->_sequence
-		);
+	std::exception_ptr eptr;
 
-		_ASSERTE(temp->_sequence < 10000);
+	while (fcb)
+	{
+		(*p_served)++;
 
-		fcb->_p_forward->pop_front();
-	}
+		//when nothing else is waiting the file can go away with the call back
+		struct_file_cb * next = next_front(*p_forward, *p_served);
 
-	
-	(*fcb->_p_served)++;
-	
-	
-	if(0 > req->result)
-	{
+		int result = ST_U32(fcb->_uv_fs_t->result);
 
-		std::cout << "!!!file async error " << uv_strerror(ST_U32(req->result))
-			<< _T("\t")
-			<< std::endl;
+		try
+		{
+			if (0 > result)
+			{
+				std::cout << "!!!file async error " << uv_strerror(result)
+					<< _T("\t")
+					<< std::endl;
 
-		fcb->call_er(std::make_exception_ptr(MGCORE::mgexception(ST_U32(req->result), uv_strerror(ST_U32(req->result)), _T(__FILE__), __LINE__)));
-	}
-	else
-	{
-		fcb->call_cb(fcb->_uv_fs_t);
-	}
-	
-	delete fcb;
+				fcb->call_er(std::make_exception_ptr(MGCORE::mgexception(result, uv_strerror(result), _T(__FILE__), __LINE__)));
+			}
+			else
+			{
+				fcb->call_cb(fcb->_uv_fs_t);
+			}
+		}
+		catch (...)
+		{
+			//the others still have to be delivered
+			if (eptr == nullptr)
+				eptr = std::current_exception();
+		}
 
-	if (temp)
-	{
-		_ASSERTE(temp->_sequence < 10001);
+		delete fcb;
 
-		FDBGC1(NEXT_FRONT_DEBUG, "---RE-READ\t%u", temp->_sequence);
-		uv_file_cb(temp->_uv_fs_t);
+		fcb = next;
 	}
 
-	
+	if (eptr != nullptr)
+		std::rethrow_exception(eptr);
 }
 
 
-- 
2.43.0


From 2e8902431791443cf57ac5f4f5e859fbb2f4d07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:39 +0000
Subject: [PATCH 12/72] fix: closing a file returned while the last call back
 was running and hung after its loop ended

---
 src/mg/core/file.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/mg/core/file.cpp b/src/mg/core/file.cpp
index a366d3d..b161cc2 100644
--- a/src/mg/core/file.cpp
+++ b/src/mg/core/file.cpp
@@ -141,7 +141,7 @@ cfile::cfile(::mg::uv::loopthread & loop)
 
 cfile::~cfile()
 {
-	if (_file)
+	if (_file || _served != _outstanding)
 		close(false);
 }
 
@@ -239,11 +239,18 @@ CResource<CPromise<uv_fs_t> > cfile::close(bool async)
 
 	//std::cout << _T("cfile::close\t") << _served << _T("\t") << _outstanding << std::endl;
 
-	while (this->_served != this->_outstanding)
+	//a loop that ended does not serve anyone
+	while (this->_served != this->_outstanding && !_loop->is_done())
 	{
 		_ended.wait(10);
 	}
 
+	do {
+		//wait for the last call back to end
+		auto_lock l(_loop->loop_lock());
+
+	} while (0);
+
 
 	_ASSERTE(this->_served == this->_outstanding);
 
-- 
2.43.0


From 8535a8f1224f7ae32195e7713eeb105785374851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:17 +0000
Subject: [PATCH 13/72] fix: the error of a failed file operation was reported
 as an overflow

---
 src/mg/core/file.cpp | 4 ++--
 src/mg/core/uvbase.h | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mg/core/file.cpp b/src/mg/core/file.cpp
index b161cc2..53653bf 100644
--- a/src/mg/core/file.cpp
+++ b/src/mg/core/file.cpp
@@ -87,7 +87,7 @@ void cfile::uv_file_cb(uv_fs_t* req)
 		//when nothing else is waiting the file can go away with the call back
 		struct_file_cb * next = next_front(*p_forward, *p_served);
 
-		int result = ST_U32(fcb->_uv_fs_t->result);
+		int result = static_cast<int>(fcb->_uv_fs_t->result);
 
 		try
 		{
@@ -170,7 +170,7 @@ CResource<CPromise<uv_fs_t> > cfile::open(const TCHAR * path, int flags, bool as
 			CResource<CPromise<uv_fs_t> > prom;
 			                              prom.Create();
 
-										  prom->call_er(std::make_exception_ptr(::mg::core::mgexception(ST_U32(req.result), uv_strerror(ST_U32(req.result)), _T(__FILE__), __LINE__)));
+										  prom->call_er(std::make_exception_ptr(::mg::core::mgexception(static_cast<int>(req.result), uv_strerror(static_cast<int>(req.result)), _T(__FILE__), __LINE__)));
 
 										  return prom;
 
diff --git a/src/mg/core/uvbase.h b/src/mg/core/uvbase.h
index 1c570e4..365b221 100644
--- a/src/mg/core/uvbase.h
+++ b/src/mg/core/uvbase.h
@@ -33,7 +33,7 @@
 __UV_BEGIN_NAMESPACE
 
 
-#define UVCHECK(num){ if (num < 0){ throw MGCORE::mgexception(ST_U32(num), uv_strerror(ST_U32(num)), _T(__FILE__), __LINE__); } }
+#define UVCHECK(num){ if (num < 0){ throw MGCORE::mgexception(static_cast<int>(num), uv_strerror(static_cast<int>(num)), _T(__FILE__), __LINE__); } }
 
 
 
-- 
2.43.0


From c8db9511239c46848e6fb065f9e9b22565580855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:24 +0000
Subject: [PATCH 14/72] fix: copying a stream used its state after destroying
 it and copied past the end of the range

---
 src/mg/core/bitstream.cpp | 80 ++++++++++++++++++---------------------
 1 file changed, 37 insertions(+), 43 deletions(-)

diff --git a/src/mg/core/bitstream.cpp b/src/mg/core/bitstream.cpp
index 05920b3..dd4f5b5 100644
--- a/src/mg/core/bitstream.cpp
+++ b/src/mg/core/bitstream.cpp
@@ -42,8 +42,7 @@ class _ccopy_stream :public Ibitstream_cb
 	uint32_t _traveling;
 	uint32_t _max_out;
 
-
-	bool _wait_end;
+	critical_section _cs;
 
 	void wait(signal_event & ev) {
 
@@ -60,9 +59,18 @@ public:
 	
 	void wait_read()
 	{
-		while (_read - _write > _max_out)
+		while (true)
 		{
-			_read_event.reset();
+			do {
+				auto_lock l(_cs);
+
+				if (_read - _write <= _max_out)
+					return;
+
+				_read_event.reset();
+
+			} while (0);
+
 			FDBGC3(COPY_STREAM_WAIT, "wait-read\t%u\t%u\t%u", _read, _write, _traveling);
 			//wait(_read_event);
 			
@@ -74,44 +82,25 @@ public:
 
 	void wait_end()
 	{
-		_wait_end = true;
-
-		if (_read == _write)
+		while (true)
 		{
-			//wait for the last call to read_cb to end
-            //we do not want to wait in case the call is synchronous
-			if(!_write_event.wait(NO_WAIT))
-			{
-			   //_ASSERTE(false);
-		       //MGCHECK(E_TIMEOUT);
-			}
-
-			return;
-		}
+			do {
+				//the last call to write_cb ends before the lock is ours
+				auto_lock l(_cs);
 
-		while (!_write_event.wait(SMALL_WAIT))
-		{
+				if (_read == _write)
+					return;
 
-			FDBGC4(COPY_STREAM_DEBUG, "wait-end\t%u\t%u\t%u\t%u", _read, _write, _traveling, 0);
+				_write_event.reset();
 
-			if (_read == _write)
-			{
-				//wait for the last call to read_cb to end
-				if (!_write_event.wait(SMALL_WAIT))
-				{
-					_ASSERTE(false);
+			} while (0);
 
-					MGCHECK(E_TIMEOUT);
-				}
+			FDBGC4(COPY_STREAM_DEBUG, "wait-end\t%u\t%u\t%u\t%u", _read, _write, _traveling, 0);
 
-				return;
-			}
+			_destination.idle();
 
-			
+			_write_event.wait(SMALL_WAIT);
 		}
-
-		_write_event.wait();
-
 	}
 
 
@@ -121,7 +110,6 @@ public:
 		, _write(0)
 		, _traveling(0)
 		, _max_out(10)
-		, _wait_end(false)
 
 	{
 		_write_event.reset();
@@ -130,8 +118,11 @@ public:
 	
 	void read(Ibitstream_storage & source, uint32_t chunk)
 	{
-		_read++;
+		do {
+			auto_lock l(_cs);
+			_read++;
 
+		} while (0);
 		
 		source.read(chunk, this);
 
@@ -157,6 +148,7 @@ public:
 	
 	virtual void write_cb(uint32_t written) override
 	{	
+		auto_lock l(_cs);
 
 		_write++;
 		
@@ -168,13 +160,10 @@ public:
 
 		FDBGC3(COPY_STREAM_DEBUG, "write-cb\t%u\t%u\t%u", _read, _write, _traveling);
 
-		if (_wait_end)
+		if (_read == _write)
 		{
-			if (_read == _write)
-			{
-				FDBGC3(COPY_STREAM_WAIT, "write-signal\t%u\t%u\t%u", _read, _write, _traveling);
-				_write_event.signal();
-			}
+			FDBGC3(COPY_STREAM_WAIT, "write-signal\t%u\t%u\t%u", _read, _write, _traveling);
+			_write_event.signal();
 		}
 
 	}
@@ -203,7 +192,12 @@ void copy_stream(
 		
 		FDBGC0(COPY_STREAM_DEBUG, "read");
 
-		ccs.read(source, chunk);
+		uint32_t to_read = chunk;
+
+		if (0 != endpos && endpos - source.get_position() < to_read)
+			to_read = static_cast<uint32_t>(endpos - source.get_position());
+
+		ccs.read(source, to_read);
 		
 	}
 
-- 
2.43.0


From 8eea0ea1609981219ff7ec3519b10048f3385a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:24 +0000
Subject: [PATCH 15/72] fix: operations pending when a loop thread was stopped
 were lost

---
 src/mg/core/uvbase.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mg/core/uvbase.cpp b/src/mg/core/uvbase.cpp
index 39ceac4..9cfdf99 100644
--- a/src/mg/core/uvbase.cpp
+++ b/src/mg/core/uvbase.cpp
@@ -61,7 +61,8 @@ void uvloopthread::run()
 				do {
 
 					MGCORE::auto_lock l(_cs);
-					if (_loop->alive())
+					//stop can be already pending, in that case run returns at once
+					while (_loop->alive())
 						_loop->run(UV_RUN_DEFAULT);
 
 				} while (0);
-- 
2.43.0


From 4fd213ea4bf5b3186899d386c73a72e2f2cf4524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:13 +0000
Subject: [PATCH 16/72] fix: the error of a failed open, write or close never
 reached its handler, handler exceptions were reported twice

---
 src/mg/core/file.cpp | 39 +++++++++++++++++++++++++++++++--------
 src/mg/core/file.h   |  4 ++++
 2 files changed, 35 insertions(+), 8 deletions(-)

diff --git a/src/mg/core/file.cpp b/src/mg/core/file.cpp
index 53653bf..dc1966c 100644
--- a/src/mg/core/file.cpp
+++ b/src/mg/core/file.cpp
@@ -101,6 +101,7 @@ void cfile::uv_file_cb(uv_fs_t* req)
 			}
 			else
 			{
+				fcb->_delivered = true;
 				fcb->call_cb(fcb->_uv_fs_t);
 			}
 		}
@@ -121,6 +122,22 @@ void cfile::uv_file_cb(uv_fs_t* req)
 }
 
 
+//file errors go to who asked the operation, by default they end the loop
+static void set_forward_er(struct_file_cb * cb)
+{
+	cb->set_er(
+		[cb](std::exception_ptr  eptr) -> bool
+		{
+			//the exceptions of the handlers have been delivered by the promise itself
+			if (cb->_delivered)
+				std::rethrow_exception(eptr);
+
+			return true;
+		}
+	);
+}
+
+
 cfile::cfile(::mg::uv::loopthread & loop)
     : _loop(loop)
 	, _file(0)
@@ -202,9 +219,9 @@ CResource<CPromise<uv_fs_t> > cfile::open(const TCHAR * path, int flags, bool as
 		}
 		);
 
-		cb->set_er();
+		set_forward_er(cb);
 
-		CResource<CPromise<uv_fs_t>> f = cb->forward();
+		CResource<CPromise<uv_fs_t>> f = cb->forward(true);
 
 		do_outstanding(cb);
 
@@ -268,7 +285,7 @@ CResource<CPromise<uv_fs_t> > cfile::close(bool async)
 		cb->_uv_fs_t->data = cb;
 		cb->_uv_fs_t.add_cleanup_function([](uv_fs_t * ptr) {uv_fs_req_cleanup(ptr); });
 
-		cb->set_er();
+		set_forward_er(cb);
 
 		uv_file * pfile = &_file;
 
@@ -278,7 +295,7 @@ CResource<CPromise<uv_fs_t> > cfile::close(bool async)
 		}
 		);
 
-		CResource<CPromise<uv_fs_t>> f = cb->forward();
+		CResource<CPromise<uv_fs_t>> f = cb->forward(true);
 
 		do_outstanding(cb);
 
@@ -332,7 +349,7 @@ CResource<CPromise<uv_fs_t>> cfile::write(const unsigned char * p_buffer, uint32
 	cb->_uv_fs_t->data = cb;
 	cb->_uv_fs_t.add_cleanup_function([](uv_fs_t * ptr) {uv_fs_req_cleanup(ptr); });
 
-	cb->set_er();
+	set_forward_er(cb);
 
 	uint64_t * ppos = &_position;
 	uint64_t    pos =  _position;
@@ -351,7 +368,7 @@ CResource<CPromise<uv_fs_t>> cfile::write(const unsigned char * p_buffer, uint32
 	    }
 	);
 
-	CResource<CPromise<uv_fs_t>> f = cb->forward();
+	CResource<CPromise<uv_fs_t>> f = cb->forward(true);
 
 	do_outstanding(cb);
 
@@ -389,8 +406,14 @@ CResource<CPromise<CBuffer<unsigned char>>> cfile::read(uint32_t size)
 		cb->_uv_fs_t.add_cleanup_function([](uv_fs_t * ptr) {uv_fs_req_cleanup(ptr); });
 		
 		cb->set_er(
-			[promise](std::exception_ptr  eptr)  mutable -> bool 
-			{ promise->call_er(eptr); return true; }
+			[promise, cb](std::exception_ptr  eptr)  mutable -> bool 
+			{ 
+				//the exceptions of the handlers have been delivered by the promise itself
+				if (cb->_delivered)
+					std::rethrow_exception(eptr);
+
+				promise->call_er(eptr); return true; 
+			}
 		);
 			
 
diff --git a/src/mg/core/file.h b/src/mg/core/file.h
index e565f53..181ae0b 100644
--- a/src/mg/core/file.h
+++ b/src/mg/core/file.h
@@ -53,6 +53,10 @@ struct struct_file_cb: CPromise<uv_fs_t>
 	//uint32_t            * _p_outstanding;
 
 	std::forward_list<struct_file_cb *> * _p_forward;
+
+	bool                 _delivered;
+
+	struct_file_cb() : _sequence(0), _p_served(NULL), _p_forward(NULL), _delivered(false) {}
 };
 
 class cfile
-- 
2.43.0


From 43f4ddcad7a9ea1a74ac6ca0e9af7aa351951593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:25 +0000
Subject: [PATCH 17/72] fix: assigning a resource to itself destroyed it

---
 src/mg/cresource.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/mg/cresource.h b/src/mg/cresource.h
index 6f836e2..0044bb9 100644
--- a/src/mg/cresource.h
+++ b/src/mg/cresource.h
@@ -120,10 +120,13 @@ public:
 	//underline pointer
 	const CResource& Assign(const CResource& res)
 	{
-		if(m_pInternalResource) m_pInternalResource->release();
+		//res can be this object, or be destroyed when this object
+		//let its resource go: take the new one first
+		CInternalResource<Type> * previous = m_pInternalResource;
 		m_pInternalResource = res.m_pInternalResource;
 		if(m_pInternalResource) m_pInternalResource->addRef();	
-		return res;
+		if(previous) previous->release();
+		return *this;
 	}
    	//assign the resource to another resource
 	//Both resource will point to the same
-- 
2.43.0


From 7599622f2e49bdb85b935ff461d19c27f39339f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:47 +0000
Subject: [PATCH 18/72] fix: adding part of a buffer to itself read freed
 memory, reading past its end read outside of it

---
 src/mg/cbuffer.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/mg/cbuffer.h b/src/mg/cbuffer.h
index f6be9f3..277adb8 100644
--- a/src/mg/cbuffer.h
+++ b/src/mg/cbuffer.h
@@ -97,8 +97,15 @@ public:
 		if(0 == size)
 			return;
 
+		//prepare moves the buffer when it grows: source can be part of it
+		bool inside = (source >= m_p && source < m_p + m_iSize);
+		sizetype offset = inside?static_cast<sizetype>(source - m_p):0;
+
 		prepare(size);
 
+		if(inside)
+			source = m_p + offset;
+
 		//DOUBLE CHECK BUT THIS SHOULD NEVER HAPPEN SINCE PREPARE DOES THE SAME CHECK
 		if((m_iSize - m_iCurrent) < size)throw std::bad_alloc();
 		//----------------------------------//
@@ -154,10 +161,12 @@ public:
 	//READ A SPECIFIED NUMBER OF TYPES FROM THE SPECIFIED POSITION
 	bool ReadBuffer(type *buffer, unsigned long dwsize, unsigned long &dwread, sizetype position)
 	{
-				dwread = m_iCurrent - position;
-				if(0 > dwread) //did not have nothing to read
+				dwread = 0;
+				if(position > m_iCurrent) //did not have nothing to read
 					return false;
 
+				dwread = m_iCurrent - position;
+
 				if(dwsize < dwread) //we still have space
 					dwread = dwsize;
 
-- 
2.43.0


From 64a1e36ec92f1f087f2b9044bf8dc763f3658f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:57 +0000
Subject: [PATCH 19/72] fix: substrings and searches beyond the end of a string
 read outside of it

---
 src/mg/alxstring.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/mg/alxstring.h b/src/mg/alxstring.h
index a27027b..777b4d9 100644
--- a/src/mg/alxstring.h
+++ b/src/mg/alxstring.h
@@ -604,6 +604,9 @@ public:
 	//Return the position from start of the searched string
 	SSIZE_T find(const TCHAR *str, uint32_t nBegin = 0) const
 	{
+		if(nBegin > len())
+			return npos;
+
 		const TCHAR *sz = CstringT<T>::operator TCHAR*();
 		const TCHAR *f = _tcsstr(&sz[nBegin], str);
 			if(f) return ST_U32(f - sz);
@@ -636,8 +639,10 @@ public:
 	CstringT subString(const size_t nbegin, size_t nLen) const
 	{
 		CstringT &s = const_cast<CstringT&>(*this);
-		//let see if the source buffer is big enough
-		nLen = ST_U32((s.m_str->getSize() - nbegin) < nLen?s.m_str->getSize():nLen);
+		//let see if the source is big enough
+		size_t full = s.m_str->getFull();
+		size_t available = nbegin < full?full - nbegin:0;
+		nLen = available < nLen?available:nLen;
 			CResource<CBuffer<TCHAR> > tmp(new CBuffer<TCHAR>(nLen + 1));
 			const TCHAR *sz = s;
 			tmp->add(sz + nbegin, nLen);
-- 
2.43.0


From e8dc75ce7257a0f6cab46765aaced09186944f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:17 +0000
Subject: [PATCH 20/72] fix: append_format printed the argument list itself
 instead of the arguments

---
 src/mg/alxstring.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/mg/alxstring.h b/src/mg/alxstring.h
index 777b4d9..183ca06 100644
--- a/src/mg/alxstring.h
+++ b/src/mg/alxstring.h
@@ -776,13 +776,16 @@ public:
 #ifdef _WIN32
 		retVal = StringCbVPrintf(szLine, sizeof(szLine), pszFmtString, args );
 #else
-		retVal = sprintf(szLine, pszFmtString, args);
+		retVal = vsnprintf(szLine, sizeof(szLine), pszFmtString, args);
+
+		if(static_cast<int>(sizeof(szLine)) <= retVal)
+			retVal = E_OVERFLOW;
 #endif
 		
-		MGBASECHECK(retVal);
-
 		va_end( args );
 
+		MGBASECHECK(retVal);
+
 		operator+=(szLine);
 	}
 
-- 
2.43.0


From 1694ba5501ee2710af95cdc069285afbaa646e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:26 +0000
Subject: [PATCH 21/72] fix: splitting at an empty separator never ended,
 splitting again kept the pieces of the previous string

---
 src/mg/splitter.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mg/splitter.h b/src/mg/splitter.h
index e93888f..22e605c 100644
--- a/src/mg/splitter.h
+++ b/src/mg/splitter.h
@@ -55,6 +55,7 @@ public:
 			return;
 
 		m_str = scontent;
+		m_locator.clear();
 
 		TCHAR *pszbegin = scontent;
 		size_t nLen = _tcslen(sseparator);
@@ -65,7 +66,8 @@ public:
 			
 				loc.nBegin = pszbegin - static_cast<TCHAR*>(scontent);
 			
-			pszbegin = _tcsstr(pszbegin, sseparator);
+			//an empty separator separates nothing
+			pszbegin = nLen?_tcsstr(pszbegin, sseparator):NULL;
 			if(!pszbegin){
 				//nothing found
 					loc.nLen = _tcslen(scontent) - loc.nBegin;
-- 
2.43.0


From 15783a86c0e6af7390c8699da39bc5e718047a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:36 +0000
Subject: [PATCH 22/72] fix: a command without arguments got those of the one
 before, a value with a colon was split at it

---
 src/mg/cmdline.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/mg/cmdline.h b/src/mg/cmdline.h
index f1cb7a9..210e207 100644
--- a/src/mg/cmdline.h
+++ b/src/mg/cmdline.h
@@ -80,6 +80,7 @@ public:
 										TCHAR  *psz = argv[i] + 1;
 										m_cmd = *psz;
 										m_cnt = 0;
+										m_argvs = 0;
 										continue;
 								}
 
@@ -429,9 +430,11 @@ public:
 
 			if(Equals(command.subString(0, 1), _T("-")))
 			{
+				//the value can contain separators: the first one counts
 				int x = command.find(_T(":"));
-				if(x < 0)
-					x = command.find(_T("="));
+				int e = command.find(_T("="));
+				if(x < 0 || (0 <= e && e < x))
+					x = e;
 
 				//check for --command
 				int ss = 1;
-- 
2.43.0


From 02f07fbd461704fe6d21b455a5686e72cf5b4474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:23 +0000
Subject: [PATCH 23/72] fix: decoding a brace read past the table

---
 src/b64/src/cdecode.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/b64/src/cdecode.cpp b/src/b64/src/cdecode.cpp
index 39a95d4..feeb8b7 100644
--- a/src/b64/src/cdecode.cpp
+++ b/src/b64/src/cdecode.cpp
@@ -34,7 +34,7 @@ int base64_decode_value(char value_in)
 	static const char decoding[] = {62,-1,-1,-1,63,52,53,54,55,56,57,58,59,60,61,-1,-1,-1,-2,-1,-1,-1,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,-1,-1,-1,-1,-1,-1,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51};
 	static const char decoding_size = sizeof(decoding);
 	value_in -= 43;
-	if (value_in < 0 || value_in > decoding_size) return -1;
+	if (value_in < 0 || value_in >= decoding_size) return -1;
 	return decoding[(int)value_in];
 }
 
-- 
2.43.0


From 35a0730812a715f1a2761846d31b7e702c98f670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:40 +0000
Subject: [PATCH 24/72] fix: directories that exist were an error to create

---
 src/mg/core/nx/util.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mg/core/nx/util.cpp b/src/mg/core/nx/util.cpp
index 81d9934..2f566a1 100644
--- a/src/mg/core/nx/util.cpp
+++ b/src/mg/core/nx/util.cpp
@@ -55,7 +55,7 @@ void delete_file(const TCHAR* pszname)
 void create_directory(const TCHAR* pszname)
 {
     int r = mkdir(pszname , S_IRWXU | S_IRWXG | S_IROTH | S_IXOTH);
-    if(EEXIST != r)
+    if(0 > r && EEXIST != errno)
         MGCHECK(r);
 }
 
-- 
2.43.0


From f12d4718aaab1e1a43f8c2c1ae5e6c0a83d7e955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:40 +0000
Subject: [PATCH 25/72] fix: narrowing negative numbers, NaN and 2^64 gave
 garbage instead of an overflow

---
 src/mg/core/core.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mg/core/core.h b/src/mg/core/core.h
index dd03949..b251310 100644
--- a/src/mg/core/core.h
+++ b/src/mg/core/core.h
@@ -180,7 +180,8 @@ inline double U64_DBL(uint64_t rhs)
 inline uint64_t DBL_U64(double rhs)
 {    
     _ASSERTE(rhs >= 0);
-	if (rhs < 0)
+	//2^64 does not fit, NaN neither
+	if (!(rhs >= 0 && rhs < 18446744073709551616.0))
 	{
 		throw MGCORE::mgexceptionbase(E_OVERFLOW);
 	}
@@ -265,7 +266,7 @@ inline size_t u64_ST(uint64_t rhs)
 inline uint32_t is_u32(SIGNEDSIZET rhs)
 {
 	_ASSERTE(rhs <= INT32_MAX);
-	if (rhs > INT32_MAX)
+	if (rhs < 0 || rhs > INT32_MAX)
 	{
 		throw MGCORE::mgexceptionbase(E_OVERFLOW);
 	}
-- 
2.43.0


From 466485c0e3f8d39dff84095b5dcb75c5175b250c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:40 +0000
Subject: [PATCH 26/72] fix: dates were off by 1900 years and a month, parsed
 dates overran their fields, offsets west of Greenwich or with minutes were
 wrong

---
 src/mg/core/nx/ctime.cpp | 91 ++++++++++++++++++++++++----------------
 1 file changed, 54 insertions(+), 37 deletions(-)

diff --git a/src/mg/core/nx/ctime.cpp b/src/mg/core/nx/ctime.cpp
index 7409248..10ae6c7 100644
--- a/src/mg/core/nx/ctime.cpp
+++ b/src/mg/core/nx/ctime.cpp
@@ -28,8 +28,9 @@ __ALX_BEGIN_NAMESPACE
 
 inline void tm_to_sm( tm & origin, SYSTEMTIME & sm )
 {
-	sm.wYear = origin.tm_year;
-	sm.wMonth = origin.tm_mon;
+	//the fields of SYSTEMTIME are the real year and the month from 1
+	sm.wYear = origin.tm_year + 1900;
+	sm.wMonth = origin.tm_mon + 1;
 	sm.wDayOfWeek = origin.tm_wday;
 	sm.wDay = origin.tm_mday;
 	sm.wHour = origin.tm_hour;
@@ -42,8 +43,8 @@ inline void tm_to_sm( tm & origin, SYSTEMTIME & sm )
 
 inline void sm_to_tm(const SYSTEMTIME & origin, tm & tms)
 {
-	tms.tm_year = origin.wYear;
-	tms.tm_mon = origin.wMonth;
+	tms.tm_year = origin.wYear - 1900;
+	tms.tm_mon = origin.wMonth - 1;
 	tms.tm_wday = origin.wDayOfWeek;
 	tms.tm_mday = origin.wDay;
 	tms.tm_hour = origin.wHour;
@@ -51,18 +52,19 @@ inline void sm_to_tm(const SYSTEMTIME & origin, tm & tms)
 	tms.tm_sec = origin.wSecond;
 	tms.tm_isdst = -1;
 }
-inline uint64_t total_seconds(const SYSTEMTIME & systime)
+//seconds between the date in the fields and the epoch. No time zone involved
+inline int64_t total_seconds(const SYSTEMTIME & systime)
 {
 	tm tms;
 		sm_to_tm(systime, tms);
-		return mktime(&tms); 
+		return timegm(&tms); 
 
 }
-inline uint64_t total_hnano(const SYSTEMTIME & systime)
+inline int64_t total_hnano(const SYSTEMTIME & systime)
 {
 	if(UINT64_MAX == systime.total_hnano)
 	{
-		return total_seconds(systime) * 10000000ULL;
+		return total_seconds(systime) * 10000000LL + systime.wMilliseconds * 10000LL;
 	}
 	else
 	{
@@ -75,16 +77,10 @@ int64_t Ctime::_GetUTCOffset()
 {
 
 	time_t rawtime = time(NULL);
-	    struct tm *ptm = gmtime(&rawtime);
-        // Request that mktime() looksup dst in timezone database
-	    ptm->tm_isdst = -1;                
-	time_t gmt = mktime(ptm);
-	    double offset = difftime(rawtime, gmt) / 60;
+	struct tm stm;
+	localtime_r(&rawtime, &stm);
 
-
-
-
-	return static_cast<int64_t>(offset); 
+	return stm.tm_gmtoff / 60;
 
 }
 
@@ -95,13 +91,13 @@ void  Ctime::ResetToNow(bool local)
 	_local = local;
 	_offset = 0;
 	
-	time_t tt = time(NULL);
-
 	timespec ts;
 
 	int r = clock_gettime(CLOCK_REALTIME, &ts);
 	MGCHECK(r);
 
+	time_t tt = ts.tv_sec;
+
 	_systime.total_hnano = ts.tv_sec * 10000000ull + ts.tv_nsec / 100ull;
 
 	tm stm;
@@ -118,6 +114,7 @@ void  Ctime::ResetToNow(bool local)
 
 
 	tm_to_sm(stm, _systime);	
+	_systime.wMilliseconds = ts.tv_nsec / 1000000;
 
 }
 
@@ -133,6 +130,8 @@ Ctime::Ctime(uint16_t wYear
 	, uint16_t wMonth
 	, uint16_t wDay)
 {
+	_local = false;
+	_offset = 0;
 	_systime.wYear = wYear;
 	_systime.wMonth = wMonth;
 	_systime.wDay = wDay;
@@ -151,19 +150,32 @@ Ctime::Ctime(const TCHAR * str_time
 	, const TCHAR * str_format)
 {
 
+	//the fields are shorter than what the format reads
+	int year(0), month(0), day(0), hour(0), minute(0), second(0), milliseconds(0);
+
 	//_stscanf(str_time
 	//TODO: _stscanf_s
 	sscanf(str_time
 		, str_format
-		, &_systime.wYear
-		, &_systime.wMonth
-		, &_systime.wDay
-		, &_systime.wHour
-		, &_systime.wMinute
-		, &_systime.wSecond
-		, &_systime.wMilliseconds
+		, &year
+		, &month
+		, &day
+		, &hour
+		, &minute
+		, &second
+		, &milliseconds
 	);
 
+	_systime.wYear = year;
+	_systime.wMonth = month;
+	_systime.wDay = day;
+	_systime.wDayOfWeek = 0;
+	_systime.wHour = hour;
+	_systime.wMinute = minute;
+	_systime.wSecond = second;
+	_systime.wMilliseconds = milliseconds;
+	_systime.total_hnano = UINT64_MAX;
+
 	_local = local;
 	_offset = 0;
 
@@ -180,11 +192,12 @@ int64_t Ctime::MilliSeconds(const SYSTEMTIME * psysBase) const
 		   && UINT64_MAX != _systime.total_hnano)
 		   )
 		   {
-		   	return (total_hnano(_systime) - total_hnano((*psysBase))) / 10000UL;
+		   	return (total_hnano(_systime) - total_hnano((*psysBase))) / 10000LL;
 		   }
 		   else
 		   {
-		   	return (total_seconds(_systime) - total_seconds((*psysBase))) * 1000; 
+		   	return (total_seconds(_systime) - total_seconds((*psysBase))) * 1000
+				+ _systime.wMilliseconds - psysBase->wMilliseconds; 
 
 		   }
 	
@@ -197,7 +210,7 @@ int64_t Ctime::TotalHNano() const
 	{
 		tm tms;
 		sm_to_tm(_systime, tms);
-		return mktime(&tms) * 10000000ULL;
+		return (_local?mktime(&tms):timegm(&tms)) * 10000000LL + _systime.wMilliseconds * 10000LL;
 	}
 	else
 	{
@@ -206,7 +219,7 @@ int64_t Ctime::TotalHNano() const
 }
 
 
-int64_t Ctime::TotalMilliseconds() const { return TotalHNano() / 10000ULL; }
+int64_t Ctime::TotalMilliseconds() const { return TotalHNano() / 10000LL; }
 int64_t Ctime::AddMilliSeconds(int64_t milly_to_add) const
 {
 
@@ -322,9 +335,7 @@ Cstring Ctime::get_MillisecondsString() const
 {
 	Cstring t(_T(""));
 	
-	uint64_t mx = total_hnano(_systime);
-		 mx %= 10000000ull; //find hnano
-		 mx /= 10000ull;    //transform to milly
+	uint64_t mx = _systime.wMilliseconds;
 
 	if (mx < 100)
 		t += _T("0");
@@ -361,7 +372,8 @@ Cstring Ctime::ToXml() const
 	tmp += _T(".");
 	tmp += get_MillisecondsString();
 
-	uint64_t offset = GetUTCOffset() / 60;
+	//minutes
+	int64_t offset = GetUTCOffset();
 
 	if (!_local)
 		offset = 0;
@@ -377,12 +389,17 @@ Cstring Ctime::ToXml() const
 		}
 
 
-		if (offset < 10)
+		if (offset / 60 < 10)
 			tmp += _T("0");
 
-		tmp += offset;
+		tmp += offset / 60;
+
+		tmp += _T(":");
+
+		if (offset % 60 < 10)
+			tmp += _T("0");
 
-		tmp += _T(":00");
+		tmp += offset % 60;
 	}
 	else
 	{
-- 
2.43.0


From 8ede3d45c2e07e0ba8fac238c0bc9e648cc6d327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:33 +0000
Subject: [PATCH 27/72] fix: composition times below the first sample's read
 before the start of the ordered list

---
 src/mg/media/mp4parse.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mg/media/mp4parse.h b/src/mg/media/mp4parse.h
index 4844c4c..5952b9a 100644
--- a/src/mg/media/mp4parse.h
+++ b/src/mg/media/mp4parse.h
@@ -971,7 +971,7 @@ class CMP4TimeManager
 				return;
 			}
 
-			while(n.composition_time < comp[idx - 1].composition_time)
+			while(0 < idx && n.composition_time < comp[idx - 1].composition_time)
 			{
 				stack.push(comp[--idx]);
 			}
-- 
2.43.0


From c618dd95abd176bf56b334c6d8953437f353e5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:44 +0000
Subject: [PATCH 28/72] fix: 64 bit chunk offsets (co64) are read instead of
 left out

---
 src/mg/media/mp4parse.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/mg/media/mp4parse.h b/src/mg/media/mp4parse.h
index 5952b9a..cb1edbd 100644
--- a/src/mg/media/mp4parse.h
+++ b/src/mg/media/mp4parse.h
@@ -820,9 +820,12 @@ public:
 
    void parse_stco(CMP4 &mp4)
    {
-	   _ASSERTE(box_stco == mp4.get_box().get_type());
+	   _ASSERTE(box_stco == mp4.get_box().get_type()
+		   || box_co64 == mp4.get_box().get_type());
 	   _ASSERTE(!_has_stco);
 
+	   const bool large_offsets = (box_co64 == mp4.get_box().get_type());
+
 	   mp4.do_full_box();
 
        _chunk_count = mp4.read_uint();
@@ -832,6 +835,9 @@ public:
 	   for(unsigned int i = 0; i < _chunk_count; i++)
 	   {
 	         _p_chunk_offset[i] = mp4.read_uint();
+
+	         if(large_offsets)
+	            _p_chunk_offset[i] = (_p_chunk_offset[i] << 32) | mp4.read_uint();
 	   }
 
 	   _has_stco = true;
@@ -2130,6 +2136,7 @@ protected:
 			_time_manager.parse_stss(mp4);
 			break;
 		case box_stco:
+		case box_co64:
 			_sample_manager.parse_stco(mp4);
 			break;
 		case box_stsc:
-- 
2.43.0


From 864762cb75f78af48b0bf5935c0e7d6df78e0995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:32 +0000
Subject: [PATCH 29/72] fix: looking up a sample by time no longer stops at the
 first sample or past the last one

---
 src/mg/media/mp4parse.h | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/mg/media/mp4parse.h b/src/mg/media/mp4parse.h
index cb1edbd..e166ee3 100644
--- a/src/mg/media/mp4parse.h
+++ b/src/mg/media/mp4parse.h
@@ -1260,10 +1260,10 @@ public:
 			 && time <= it->composition_time);
 
 		if(!found)
-			return 0;
+			return (_composition_2sample.empty())?0:_composition_2sample.back().sample_number;
 
 		if(it == _composition_2sample.begin())
-			return 0;
+			return it->sample_number;
 
 		_ASSERTE(it != _composition_2sample.begin());
 
@@ -2353,9 +2353,6 @@ public:
 		//uint64_t sample = _time_manager.get_decoding_sample_number(dtime);
 		uint64_t sample = _time_manager.get_composition_sample_number(dtime);
 
-		if(!sample)
-			return 0;
-
 		//while(dtime > _time_manager.get_composition_time(sample)
 		//	&& 0 < sample )
 		//{
-- 
2.43.0


From ca1e0efa893cdd8be1845e101cb03f80a6b53a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:33 +0000
Subject: [PATCH 30/72] fix: files with fewer samples than the look ahead were
 refused

---
 src/mg/media/mp4edit.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/mg/media/mp4edit.cpp b/src/mg/media/mp4edit.cpp
index 367f938..86ae6de 100644
--- a/src/mg/media/mp4edit.cpp
+++ b/src/mg/media/mp4edit.cpp
@@ -313,7 +313,21 @@ void CMP4EditBase::do_edit_mux(
 		{
 			
 			if(!reader.next_file_chunks(ms))
-				ALXTHROW_T(_T("cannot check first sample info."));
+			{
+				//a short file ends before the look ahead does: that is enough if every stream was met
+				for(size_t i = 0; i < reader.stream_count(); i++)
+				{
+					if(!reader.IsValidStream(i) || i == reader.LTCStream())
+						continue;
+
+					if(INT64_MAX == (info.map[i].video
+						?info.video_info[info.map[i].internal_index].next_composition
+						:info.audio_info[info.map[i].internal_index].next_composition))
+						ALXTHROW_T(_T("cannot check first sample info."));
+				}
+
+				break;
+			}
 
             if ((ms.composition_time + static_cast<int64_t>(reader.get_stream_offset(ms.stream))) < start && discard_pre_start) //<-- loose gop position
             {
-- 
2.43.0


From 96319da6229ee86fa714244f0e770faf30f7c7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:04 +0000
Subject: [PATCH 31/72] fix: the end of a stream was taken from every other
 sample, and without its offset

---
 src/mg/media/mp4dynamic.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/mg/media/mp4dynamic.h b/src/mg/media/mp4dynamic.h
index 902f192..f04fdea 100644
--- a/src/mg/media/mp4dynamic.h
+++ b/src/mg/media/mp4dynamic.h
@@ -107,7 +107,7 @@ public:
 		)
 	{
 		
-		if(_stream_end[stream_id] < composition_time)
+		if(_stream_end[stream_id] <= composition_time)
 		{
 			_stream_end[stream_id] = composition_time;
 			_stream_end_duration[stream_id] = duration;
@@ -199,9 +199,10 @@ protected:
 		, uint64_t total_stream_samples) const 
 	{
 		std::map<int, uint64_t> & stream_composition_end = *(const_cast<std::map<int, uint64_t> *>(&_stream_composition_end));
-		if(stream_composition_end[ms.stream] < static_cast<uint64_t>(ms.composition_time))
+		uint64_t composition_end = ms.composition_time + stream_offset + ms.duration;
+		if(stream_composition_end[ms.stream] < composition_end)
 		{
-			stream_composition_end[ms.stream] = ms.composition_time + ms.duration;
+			stream_composition_end[ms.stream] = composition_end;
 		}
 	}
 
-- 
2.43.0


From 322daa9955437f71e4a58a66ccb5395b506767c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:42 +0000
Subject: [PATCH 32/72] fix: the closing point of a stream left out its start
 offset

---
 src/mg/media/mp4dynamicinfo.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mg/media/mp4dynamicinfo.h b/src/mg/media/mp4dynamicinfo.h
index bce998b..d1734de 100644
--- a/src/mg/media/mp4dynamicinfo.h
+++ b/src/mg/media/mp4dynamicinfo.h
@@ -1192,6 +1192,7 @@ public:
 		{		
 			_presentation.get_by_index(i)->AddPoint(
 					  get_stream_end(i)
+						+ this->_stream_start_offset[i]
 					, /*INT64_MAX //this is a closing point. it should never be used.
 						     //it's just there to allow computing the duration of
 						     //the real last one
-- 
2.43.0


From cc9f88cced82ee8d36751fc80089c4df2685357a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:27 +0000
Subject: [PATCH 33/72] fix: packaging a whole file leaves out pictures shown
 after the file's duration

---
 src/mg/media/mp4dynamic.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mg/media/mp4dynamic.cpp b/src/mg/media/mp4dynamic.cpp
index d8720ba..cbb85a0 100644
--- a/src/mg/media/mp4dynamic.cpp
+++ b/src/mg/media/mp4dynamic.cpp
@@ -244,7 +244,7 @@ void CMP4Dynamic::Add(/*MP4File*/CMP4 & mp4, MP4Reader & reader, uint64_t start,
 
 	if (0 == _current_end)
 	{
-		_current_end = reader.get_duration();
+		_current_end = UINT64_MAX; //the whole file: composition may go on after the duration
 	}
 
 	if (0 == _info.file_count)
-- 
2.43.0


From 7dbe9322200d03a666b01a447e1551db719aa20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:29 +0000
Subject: [PATCH 34/72] fix: a piece whose first picture is shown late lost
 that picture when another sync picture was decoded before then

---
 src/mg/media/mp4fragmented.h | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/mg/media/mp4fragmented.h b/src/mg/media/mp4fragmented.h
index a94954e..3b9ac16 100644
--- a/src/mg/media/mp4fragmented.h
+++ b/src/mg/media/mp4fragmented.h
@@ -596,7 +596,20 @@ public:
 
 		//////////////////////////////////////////////////////////////////////
 
-		reader.move(start_time, stream_id);
+		//positioning is in decoding time: begin where the first sample to present is decoded
+		uint64_t move_time = start_time;
+
+		if(reader.has_composition_time(stream_id) && reader.has_random_access_point(stream_id))
+		{
+			uint64_t decoding_start = reader.get_decoding_time(
+				reader.get_composition_sample_number((start_time > stream_offset)?(start_time - stream_offset):0, stream_id)
+				, stream_id);
+
+			if(decoding_start < move_time)
+				move_time = decoding_start;
+		}
+
+		reader.move(move_time, stream_id);
 
 #ifdef _DEBUG
 		
-- 
2.43.0


From 7817c536e1fdc9411a23b74519fbe3b542e206bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:03 +0000
Subject: [PATCH 35/72] fix: the manifest's duration lost the leading zeros,
 and a digit, of the fraction of a second

---
 src/mg/media/mpd_renderer.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mg/media/mpd_renderer.h b/src/mg/media/mpd_renderer.h
index 95cb3ac..f4516bf 100644
--- a/src/mg/media/mpd_renderer.h
+++ b/src/mg/media/mpd_renderer.h
@@ -67,7 +67,7 @@ public:
 	
 	virtual void begin(uint64_t duration)
 	{	
-		uint64_t TNANO = duration % 1000000UL;
+		uint64_t TNANO = duration % 10000000UL;
 	
 		_xml += _T("<MPD xmlns=\"urn:mpeg:dash:schema:mpd:2011\" xmlns:xsi=\"http://www.w3.org/2001/XMLSchema-instance\" ");
 		_xml += _T("profiles=\"urn:mpeg:dash:profile:isoff-live:2011\" type=\"static\" ");
@@ -80,7 +80,8 @@ public:
         _xml += _T("mediaPresentationDuration=\"PT");
 		_xml += duration / 10000000UL;
 		_xml += _T(".");
-		_xml += TNANO;
+		for(uint64_t digit = 1000000UL; digit > 0; digit /= 10UL)
+			_xml += (TNANO / digit) % 10UL;
 		_xml += _T("S\" minBufferTime=\"PT3S\">\r\n");
 
 		_xml += _T("\t<Period>\r\n");
-- 
2.43.0


From 7ef5b1b60d65566a0d2fcf36b44bb49b85bc2738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:20 +0000
Subject: [PATCH 36/72] fix: the codecs attribute of video said 00 or 01 for
 every set of constraint flags

---
 src/mg/media/mpd_renderer.h | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/src/mg/media/mpd_renderer.h b/src/mg/media/mpd_renderer.h
index f4516bf..b4fef4f 100644
--- a/src/mg/media/mpd_renderer.h
+++ b/src/mg/media/mpd_renderer.h
@@ -141,17 +141,10 @@ public:
 		_ASSERTE(size > 6);
 
 		codecs += _T("avc1.");
+		//profile_idc, constraint flags and level_idc as they are (RFC 6381)
 		codecs.append_hex_buffer(codec_private_data + 3, 1);
 
-		unsigned char profile_compatibility = codec_private_data[4];
-		              profile_compatibility = 
-						                      (profile_compatibility & 0x80) >> 7
-										   || (profile_compatibility & 0x40) << 6
-										   || (profile_compatibility & 0x20) << 5
-										   || (profile_compatibility & 0x10) << 4
-										   ;
-
-		codecs.append_hex_buffer(&profile_compatibility, 1);
+		codecs.append_hex_buffer(codec_private_data + 4, 1);
 
 		codecs.append_hex_buffer(codec_private_data + 5, 1);
 
-- 
2.43.0


From 9137d20f7dc3b55ee367c9d127d8eb4645429c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:20 +0000
Subject: [PATCH 37/72] fix: maxWidth and maxHeight of a video included those
 of the videos before it

---
 src/mg/media/mpd_renderer.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mg/media/mpd_renderer.h b/src/mg/media/mpd_renderer.h
index b4fef4f..1dbfee4 100644
--- a/src/mg/media/mpd_renderer.h
+++ b/src/mg/media/mpd_renderer.h
@@ -95,6 +95,9 @@ public:
 		_rappresentation_xml = _T("");
 		_points_xml = _T("");
 
+		_maxWidth = 0;
+		_maxHeight = 0;
+
 		_current_stream = psz_name;
 		_stype = stype;
 		_current_stream_time = 0;
-- 
2.43.0


From 5d98f2a4759aadeaa95be819eb32038fb83d136a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:38 +0000
Subject: [PATCH 38/72] fix: endless loop when the sound begins before the
 first picture and no sample begins at it

---
 src/mg/media/mp4dynamic.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mg/media/mp4dynamic.cpp b/src/mg/media/mp4dynamic.cpp
index cbb85a0..0278a7f 100644
--- a/src/mg/media/mp4dynamic.cpp
+++ b/src/mg/media/mp4dynamic.cpp
@@ -332,6 +332,9 @@ void CMP4DynamicDiscreate::publish_no_random_stream(
 
 	while(composition < start)
 	{
+		if(++p >= reader.get_sample_count(stream))
+			return; //nothing from start on
+
 		if(has_composition)
 			composition =  reader.get_composition_time(p, stream);
 		else
-- 
2.43.0


From 07bcba836481e55f9dfe03f582a934068788f927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:38 +0000
Subject: [PATCH 39/72] fix: a local date read from text was written with
 today's offset from UTC, not the one of that date

---
 src/mg/core/nx/ctime.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/mg/core/nx/ctime.cpp b/src/mg/core/nx/ctime.cpp
index 10ae6c7..d4e235a 100644
--- a/src/mg/core/nx/ctime.cpp
+++ b/src/mg/core/nx/ctime.cpp
@@ -180,7 +180,13 @@ Ctime::Ctime(const TCHAR * str_time
 	_offset = 0;
 
 	if (_local)
-		_offset = _GetUTCOffset();
+	{
+		//the offset of that date, which may not be the one of today
+		tm tms;
+		sm_to_tm(_systime, tms);
+		mktime(&tms);
+		_offset = tms.tm_gmtoff / 60;
+	}
 }
 
 
-- 
2.43.0


From 0f3284b2fd0f06e58692118a5baa5b4f93735ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:56 +0000
Subject: [PATCH 40/72] fix: the duration of an HLS segment lost the leading
 zeros, and a digit, of the fraction of a second

---
 src/mg/media/hls_renderer.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mg/media/hls_renderer.h b/src/mg/media/hls_renderer.h
index 4ff95ed..9f9bc78 100644
--- a/src/mg/media/hls_renderer.h
+++ b/src/mg/media/hls_renderer.h
@@ -203,12 +203,13 @@ public:
 
 		//duration = duration / 10UL;
 
-		uint64_t TNANO = duration % 1000000UL;
+		uint64_t TNANO = duration % 10000000UL;
 
 		_body += _T("#EXTINF:");
 		_body += duration / 10000000UL;
 		_body += _T(".");
-		_body += TNANO;
+		for(uint64_t digit = 1000000UL; digit > 0; digit /= 10UL)
+			_body += (TNANO / digit) % 10UL;
 		_body += _T(",no-desc\r\n");
 		_body += _prefix;
 		_body += _T("_");
-- 
2.43.0


From 1305a9f0ef28754875fe51331b894546b60ac406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:56 +0000
Subject: [PATCH 41/72] fix: CODECS of an HLS variant said 00 or 01 for every
 set of constraint flags

---
 src/mg/media/hls_renderer.h | 18 ++----------------
 1 file changed, 2 insertions(+), 16 deletions(-)

diff --git a/src/mg/media/hls_renderer.h b/src/mg/media/hls_renderer.h
index 9f9bc78..21f8f40 100644
--- a/src/mg/media/hls_renderer.h
+++ b/src/mg/media/hls_renderer.h
@@ -118,22 +118,8 @@ public:
 
 		_video_codec.Clear();
 		_video_codec += _T("avc1.");
-		//_video_codec.append_hex_buffer(codec_private_data + 3, 3);
-
-		_video_codec.append_hex_buffer(codec_private_data + 3, 1);
-
-		unsigned char profile_compatibility = codec_private_data[4];
-		              profile_compatibility = 
-						                      (profile_compatibility & 0x80) >> 7
-										   || (profile_compatibility & 0x40) << 6
-										   || (profile_compatibility & 0x20) << 5
-										   || (profile_compatibility & 0x10) << 4
-										   ;
-
-	    _video_codec.append_hex_buffer(&profile_compatibility, 1);
-
-		_video_codec.append_hex_buffer(codec_private_data + 5, 1);
-	    
+		//profile_idc, constraint flags and level_idc as they are (RFC 6381)
+		_video_codec.append_hex_buffer(codec_private_data + 3, 3);
 
 		_root_m3u += _T("#EXT-X-STREAM-INF:BANDWIDTH=");
 		_root_m3u += (bit_rate + _audio_bit_rate);
-- 
2.43.0


From 30a154b375ffe72b60be9ccb81b080665d5f8198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:07 +0000
Subject: [PATCH 42/72] fix: the target duration of an HLS playlist was that of
 the first segment, rounded down

---
 src/mg/media/hls_renderer.h | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/mg/media/hls_renderer.h b/src/mg/media/hls_renderer.h
index 21f8f40..7b2e992 100644
--- a/src/mg/media/hls_renderer.h
+++ b/src/mg/media/hls_renderer.h
@@ -54,6 +54,7 @@ class HLSRenderer: public IDynamicRenderer
 	 bool _video_points;
 
 	 int _audio_bit_rate;
+	 uint64_t _target_duration;
 
 	 Cstring _prefix;
 
@@ -69,6 +70,7 @@ public:
 		  _index(-1)
 		, _has_audio(false)
 		, _audio_bit_rate(96000)
+		, _target_duration(0)
 		, _root_m3u(10240)
 		, _body(10240)
 		, _begin_stream(false)
@@ -174,7 +176,7 @@ public:
 			_body += _T("#EXT-X-ALLOW-CACHE:NO\r\n");
 			_body += _T("#EXT-X-MEDIA-SEQUENCE:0\r\n");
 			_body += _T("#EXT-X-TARGETDURATION:");
-			_body += duration / 10000000UL;
+			_body += _T("$(TARGETDURATION)"); //the longest segment: known at the end
 			_body += "\r\n";
 			_body += _T("#EXT-X-PROGRAM-DATE-TIME:1970-01-01T00:00:00Z\r\n");
 
@@ -187,6 +189,9 @@ public:
 
 		}
 
+		if(duration > _target_duration)
+			_target_duration = duration;
+
 		//duration = duration / 10UL;
 
 		uint64_t TNANO = duration % 10000000UL;
@@ -228,6 +233,12 @@ public:
 
 		_body += _T("#EXT-X-ENDLIST\r\n");
 
+		//no segment may be longer than this
+		Cstring target_duration;
+		        target_duration += (_target_duration + 9999999UL) / 10000000UL;
+
+		_body = replace(_body, target_duration, _T("$(TARGETDURATION)"));
+
 	}
 
 	Cstring & main(){return _root_m3u;}
-- 
2.43.0


From f6e3c236b3e2194d138a304d70a8cb125cee3d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:04 +0000
Subject: [PATCH 43/72] fix: an HLS segment whose first picture is shown late
 lost that picture when another sync picture was decoded before then

---
 src/mg/media/mp4edit.cpp | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/mg/media/mp4edit.cpp b/src/mg/media/mp4edit.cpp
index 86ae6de..d95d38d 100644
--- a/src/mg/media/mp4edit.cpp
+++ b/src/mg/media/mp4edit.cpp
@@ -305,7 +305,26 @@ void CMP4EditBase::do_edit_mux(
     
 		int current_look_head = 0;
 
-		reader.move(start);
+		//positioning is in decoding time: when start is where presentation begins
+		//begin where the first sample to present is decoded
+		int64_t move_time = start;
+
+		if(discard_pre_start && reader.HasVisual() && reader.has_composition_time(reader.VisualStream()))
+		{
+			int visual = reader.VisualStream();
+
+			int64_t decoding_start = reader.get_decoding_time(
+				reader.get_composition_sample_number(
+					(start > static_cast<int64_t>(reader.get_stream_offset(visual)))
+						?(start - reader.get_stream_offset(visual)):0
+					, visual)
+				, visual);
+
+			if(decoding_start < move_time)
+				move_time = decoding_start;
+		}
+
+		reader.move(move_time);
 
 		info.ltc_interpolated = false;
 
@@ -605,7 +624,7 @@ void CMP4EditBase::do_edit_mux(
 
 	////////////////////////
 	//reader.move(start);
-	move_to_read(start, reader);
+	move_to_read(move_time, reader);
 	////////////////////////
 
 	work = true;
-- 
2.43.0


From 79de55b173bd0c662aae97cdbd4bbaf6bd3b11b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:16 +0000
Subject: [PATCH 44/72] fix: looking up a sample by the time reported for it
 found the one before, when that time had been rounded down

---
 src/mg/media/mp4parse.h | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/mg/media/mp4parse.h b/src/mg/media/mp4parse.h
index e166ee3..59ce570 100644
--- a/src/mg/media/mp4parse.h
+++ b/src/mg/media/mp4parse.h
@@ -2324,12 +2324,23 @@ public:
 		return (1000UL * 10000UL * duration) / _mdhd.get_timescale() ;
 
 	}
+	//sample times are reported rounded down:
+	//the last media time reported at or before time
+	uint64_t last_media_time(const uint64_t time) const
+	{
+		return ((time + 1) * _mdhd.get_timescale() - 1) / (1000UL * 10000UL);
+	}
+
+	//the first media time reported at or after time
+	uint64_t first_media_time(const uint64_t time) const
+	{
+		return (time * _mdhd.get_timescale() + (1000UL * 10000UL) - 1) / (1000UL * 10000UL);
+	}
+
 	uint64_t get_IFrame_number(uint64_t time)
 	{	  
 
-		 uint64_t composition_time = time * _mdhd.get_timescale() / (1000UL * 10000UL);
-
-		 return _time_manager.get_IFrame_number(composition_time);
+		 return _time_manager.get_IFrame_number(last_media_time(time));
 	}
 
 	uint64_t get_next_IFrame_time()
@@ -2343,13 +2354,12 @@ public:
 
 	uint64_t get_decoding_sample_number(const uint64_t time) const
 	{
-		uint64_t dtime = time * _mdhd.get_timescale() / (1000UL * 10000UL);
-		return _time_manager.get_decoding_sample_number(dtime);
+		return _time_manager.get_decoding_sample_number(last_media_time(time));
 	}
 
 	uint64_t get_composition_sample_number(const uint64_t time) const
 	{
-		uint64_t dtime  = time * _mdhd.get_timescale() / (1000UL * 10000UL);
+		uint64_t dtime  = first_media_time(time);
 		//uint64_t sample = _time_manager.get_decoding_sample_number(dtime);
 		uint64_t sample = _time_manager.get_composition_sample_number(dtime);
 
-- 
2.43.0


From 4a7443fd388a85c8716d8639ba4225ab5c951ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:41 +0000
Subject: [PATCH 45/72] fix: HLS packaging failed when the sound ended before
 the last segment began

---
 src/mg/media/mp4edit.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/mg/media/mp4edit.cpp b/src/mg/media/mp4edit.cpp
index d95d38d..f6b37e8 100644
--- a/src/mg/media/mp4edit.cpp
+++ b/src/mg/media/mp4edit.cpp
@@ -339,10 +339,20 @@ void CMP4EditBase::do_edit_mux(
 					if(!reader.IsValidStream(i) || i == reader.LTCStream())
 						continue;
 
-					if(INT64_MAX == (info.map[i].video
-						?info.video_info[info.map[i].internal_index].next_composition
-						:info.audio_info[info.map[i].internal_index].next_composition))
+					ps = info.map[i].video
+						?static_cast<stream_edit_info *>(&info.video_info[info.map[i].internal_index])
+						:&info.audio_info[info.map[i].internal_index];
+
+					if(INT64_MAX != ps->next_composition)
+						continue;
+
+					if(!discard_pre_start)
 						ALXTHROW_T(_T("cannot check first sample info."));
+
+					//the stream ended before start: there is nothing of it to present
+					ps->next_composition = start;
+					ps->next_duration    = 0;
+					ps->next_decoding    = start;
 				}
 
 				break;
-- 
2.43.0


From 5caf3103ef63c6ce697f5fd088ab232e91ffbece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:22 +0000
Subject: [PATCH 46/72] fix: HLS segments were presented early by the distance
 of the sound from the first picture when sound comes first in the file

---
 src/mg/media/tsmux.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mg/media/tsmux.h b/src/mg/media/tsmux.h
index b55c626..d0f9595 100644
--- a/src/mg/media/tsmux.h
+++ b/src/mg/media/tsmux.h
@@ -689,11 +689,11 @@ public:
         
 		if(INT64_MAX == s.computed_offset)
 		{
-			s.computed_offset = s.base_time - composition_time;
+			//composition begins at zero with the stream that begins first,
+			//which may not be the one whose sample is first in the file
+			s.computed_offset = s.base_time;
 		    _composition_start_time[t_stream_id] = s;
 
-			_ASSERTE( (composition_time  + s.computed_offset) == s.base_time );
-
 			/*
 			DBGC4(L"FIRST SAMPLE %s %s %s %d\r\n"
 				, HNS(composition_time)
-- 
2.43.0


From 432e540dba42448679ebf2eec268b61ec98ff2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:09 +0000
Subject: [PATCH 47/72] fix: pictures of an HLS segment were decoded too late
 when an edit list delays the sound

---
 src/mg/media/tsmux.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/mg/media/tsmux.h b/src/mg/media/tsmux.h
index d0f9595..b18e52c 100644
--- a/src/mg/media/tsmux.h
+++ b/src/mg/media/tsmux.h
@@ -766,6 +766,14 @@ protected:
 	
 	virtual IMP4Mux2 & get_mux(){ return _mp4mux; }
 	virtual void set_ctts_offset_(bool rhs){}
+
+	virtual void info_composition_info2(const int stream_id, stream_edit_info * ps
+		, uint64_t composition, uint64_t decoding)
+	{
+		//an edit list moves composition alone:
+		//streams joined in decoding would be decoded later than they are presented
+		ps->stream_decoding = ps->stream_composition;
+	}
 public:
 	MP42HLS()
 	{
-- 
2.43.0


From 10aabc916e9dc5720b451c61aa6fd29dd8eceb25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:52 +0000
Subject: [PATCH 48/72] fix: a transport stream packet was filled with wrong
 bytes when a random access unit left one byte of it unused

---
 src/mg/media/tswrite.h | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/mg/media/tswrite.h b/src/mg/media/tswrite.h
index 7d9c5d5..859470b 100644
--- a/src/mg/media/tswrite.h
+++ b/src/mg/media/tswrite.h
@@ -474,20 +474,18 @@ public:
 
 			first_adaptation = true;
 
-			if(1 == diff)
+			if(random_access_indicator)
+			{
+				af.adaptation_field_length += (diff); //2 alredy removed before
+			}
+			else if(1 == diff)
 			{
 				af.adaptation_field_length = 0;
 				
 			}
 			else
 			{	
-				if(!random_access_indicator)
-				{
-					af.adaptation_field_length += (first_ts_packet - 2 - size); 
-				}
-				else
-					af.adaptation_field_length += (diff); //2 alredy removed before
-
+				af.adaptation_field_length += (first_ts_packet - 2 - size); 
 			}
 		}
 
-- 
2.43.0


From 5f2fde7d8cc76f6e3105f7871d1cd942d393aa8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:26 +0000
Subject: [PATCH 49/72] fix: the length of a PES packet overflowed when the
 header brought it over 65535 bytes

---
 src/mg/media/tswrite.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mg/media/tswrite.h b/src/mg/media/tswrite.h
index 859470b..224f13a 100644
--- a/src/mg/media/tswrite.h
+++ b/src/mg/media/tswrite.h
@@ -159,7 +159,7 @@ protected:
 		pes.PES_packet_length += pes.PES_header_data_length;
 		pes.PES_packet_length += body_size;
 
-		if(!body_size || MAX_PES_SIZE <= body_size)
+		if(!body_size || MAX_PES_SIZE < pes.PES_packet_length)
 			pes.PES_packet_length = 0; //no length packet
 
 	}
-- 
2.43.0


From 9ab7edfddea2016c0e01958d597cd7c25f952ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:57 +0000
Subject: [PATCH 50/72] fix: the end of a stream without samples from the last
 sync picture on was not found, losing its last segment

---
 src/mg/media/mp4dynamic.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/mg/media/mp4dynamic.cpp b/src/mg/media/mp4dynamic.cpp
index 0278a7f..75279fa 100644
--- a/src/mg/media/mp4dynamic.cpp
+++ b/src/mg/media/mp4dynamic.cpp
@@ -38,8 +38,6 @@ void CMP4Dynamic::move_to_read(  uint64_t start
 			, MP4Reader &reader
 			)
 {
-	bool only_audio = !reader.HasVisual();
-	uint64_t last_composition = 0;
 
 	uint64_t computed_start_time = UINT64_MAX;
     
@@ -116,11 +114,11 @@ void CMP4Dynamic::move_to_read(  uint64_t start
 
 		end_stream();
 
-		if(reader.IsVisual(idx) || only_audio)
-			last_composition = t_composition;
 	}
 
-	reader.move(last_composition);
+	//the end of every stream is found from all its samples:
+	//some may have none from the last point on
+	reader.move(start);
 
 }
 
-- 
2.43.0


From 26471fcd31f323ea3b3bba04a66d5baea4ac665a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:56 +0000
Subject: [PATCH 51/72] fix: a file of one picture took no time when another
 was joined to it

---
 src/mg/media/mp4edit.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mg/media/mp4edit.cpp b/src/mg/media/mp4edit.cpp
index f6b37e8..4082a56 100644
--- a/src/mg/media/mp4edit.cpp
+++ b/src/mg/media/mp4edit.cpp
@@ -782,7 +782,7 @@ void CMP4EditBase::do_edit_mux(
 			ps->last_duration = reader.get_sample_duration(ms.stream);
 			
 
-		if(last_composition[ms.stream] < ps->last_composition)
+		if(last_composition[ms.stream] <= ps->last_composition)
 		{
 			last_composition[ms.stream] = ps->last_composition;
 			last_duration[ms.stream]    = ps->last_duration;
-- 
2.43.0


From e4cc40b15cc77cb3be3dd5a1c564dcd5d2ff54d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:32 +0000
Subject: [PATCH 52/72] fix: joining a file whose sound does not complete the
 fragment begun by the file before read beyond its samples

---
 src/mg/media/mp4dynamic.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/mg/media/mp4dynamic.cpp b/src/mg/media/mp4dynamic.cpp
index 75279fa..008209d 100644
--- a/src/mg/media/mp4dynamic.cpp
+++ b/src/mg/media/mp4dynamic.cpp
@@ -373,17 +373,19 @@ void CMP4DynamicDiscreate::publish_no_random_stream(
 				
 		
 		
+		_reporting_start_time = UINT64_MAX;
+
 		p += fill_jump;
 
+		if(p >= reader.get_sample_count(stream))
+			return; //everything is in the crossing fragment
+
 		if(has_composition)
 			composition =  reader.get_composition_time(p, stream);
 		else
 		    composition = reader.get_decoding_time(p, stream);
 
 		composition += off;
-
-
-		_reporting_start_time = UINT64_MAX;
 	}
 		
 
-- 
2.43.0


From 9f3984c4db38ed99386a9f872a09326b48d244ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:09 +0000
Subject: [PATCH 53/72] fix: what the first sound track left over was put in
 front of the second of the same file

---
 src/mg/media/mp4dynamic.cpp | 30 +++++++++++++++---------------
 src/mg/media/mp4dynamic.h   |  7 +++----
 2 files changed, 18 insertions(+), 19 deletions(-)

diff --git a/src/mg/media/mp4dynamic.cpp b/src/mg/media/mp4dynamic.cpp
index 008209d..ccf9bba 100644
--- a/src/mg/media/mp4dynamic.cpp
+++ b/src/mg/media/mp4dynamic.cpp
@@ -343,25 +343,25 @@ void CMP4DynamicDiscreate::publish_no_random_stream(
 	}
 
 
-	if(UINT64_MAX != _reporting_start_time 
+	if(0 < _reporting_start_time.count(stream)
 			&& _generate_only_full_fragment)
 	{
-		_ASSERTE(jump > _reporting_samples);
+		_ASSERTE(jump > _reporting_samples[stream]);
 		
-		uint64_t fill_jump = jump - _reporting_samples;
+		uint64_t fill_jump = jump - _reporting_samples[stream];
 
 		uint64_t t1 = computed_time(
-			                          (composition - off) - (_reporting_samples * d)
+			                          (composition - off) - (_reporting_samples[stream] * d)
 									 , stream
 									 , off
 									 );
 
-		//_ASSERTE(t1 >= _reporting_computed_start_time);
+		//_ASSERTE(t1 >= _reporting_computed_start_time[stream]);
 
-		t1 = _reporting_computed_start_time;
+		t1 = _reporting_computed_start_time[stream];
 
 
-		publish_segmented_composition_cross( _reporting_start_time
+		publish_segmented_composition_cross( _reporting_start_time[stream]
 			, t1
 			, composition
 			, computed_time(
@@ -373,7 +373,7 @@ void CMP4DynamicDiscreate::publish_no_random_stream(
 				
 		
 		
-		_reporting_start_time = UINT64_MAX;
+		_reporting_start_time.erase(stream);
 
 		p += fill_jump;
 
@@ -408,25 +408,25 @@ void CMP4DynamicDiscreate::publish_no_random_stream(
 		{
 			if(_generate_only_full_fragment)
 			{
-				_ASSERTE(UINT64_MAX == _reporting_start_time);
+				_ASSERTE(0 == _reporting_start_time.count(stream));
 				 
-				_reporting_samples    = reader.get_sample_count(stream) - p;
+				_reporting_samples[stream]    = reader.get_sample_count(stream) - p;
 
-				uint64_t sn   = reader.get_sample_count(stream) - _reporting_samples;
+				uint64_t sn   = reader.get_sample_count(stream) - _reporting_samples[stream];
 
-				_reporting_start_time = reader.get_decoding_time(sn, stream);
+				_reporting_start_time[stream] = reader.get_decoding_time(sn, stream);
 
 				if(has_composition)
 				{
-					_reporting_start_time = reader.get_composition_time(sn, stream);
+					_reporting_start_time[stream] = reader.get_composition_time(sn, stream);
 				}
 		    				
-				_reporting_computed_start_time = computed_time(_reporting_start_time
+				_reporting_computed_start_time[stream] = computed_time(_reporting_start_time[stream]
 									 , stream
 									 , off
 									 );
 
-				_reporting_start_time += off;
+				_reporting_start_time[stream] += off;
 				
 				//p = reader.get_sample_count(stream); //get off
 				return;
diff --git a/src/mg/media/mp4dynamic.h b/src/mg/media/mp4dynamic.h
index f04fdea..924001c 100644
--- a/src/mg/media/mp4dynamic.h
+++ b/src/mg/media/mp4dynamic.h
@@ -352,9 +352,9 @@ class CMP4DynamicDiscreate : public CMP4Dynamic
 	uint64_t _fragment_tolerance;
 
 	bool			 _generate_only_full_fragment; //if true we join an half fragment from one file to the following one
-    uint64_t _reporting_start_time;
-	uint64_t _reporting_computed_start_time;
-	uint64_t				 _reporting_samples;
+    std::map<int, uint64_t> _reporting_start_time;
+	std::map<int, uint64_t> _reporting_computed_start_time;
+	std::map<int, uint64_t> _reporting_samples;
 protected:
 	
 	virtual void begin_stream(int stream){_last_fragment[stream] = UINT64_MAX;}
@@ -398,7 +398,6 @@ public:
 		:_fragment_length(20000000)
 		, _fragment_tolerance(260000) //less than a frame
 		, _generate_only_full_fragment(true)
-		, _reporting_start_time(UINT64_MAX)
 	{}
 
 	CMP4DynamicDiscreate(uint64_t fragment_length)
-- 
2.43.0


From 719917aa884f0c9a7660fb201e329da372b79a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:09 +0000
Subject: [PATCH 54/72] fix: the sound before and in a fragment that crosses
 two files had no end: samples were there twice

---
 src/mg/media/mp4dynamicinfo.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/mg/media/mp4dynamicinfo.h b/src/mg/media/mp4dynamicinfo.h
index d1734de..39051bc 100644
--- a/src/mg/media/mp4dynamicinfo.h
+++ b/src/mg/media/mp4dynamicinfo.h
@@ -315,6 +315,13 @@ public:
 			iter++;
 		//}
 		
+		if(CROSS_POINT_TIME == orig) //ends in the second file
+		{
+			const CrossPoint & cp = get_cross_point(computed_time);
+			orig = cp.composition_2;
+			comp = cp.computed_time_2;
+		}
+
         std::set<int64_t>::const_iterator ifilecross1 = _file_cross.upper_bound(comp);
         std::set<int64_t>::const_iterator ifilecross2 = _file_cross.upper_bound(iter->first);
 
@@ -332,6 +339,9 @@ public:
 
 		}
 
+		if(CROSS_POINT_TIME == iter->second) //begins in this file
+			return get_cross_point(iter->first).composition;
+
 		return iter->second;
 	}
 
-- 
2.43.0


From 39e6e805b6b93b987af3dca33d5526e6bf8754e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:55 +0000
Subject: [PATCH 55/72] fix: in a fragment that crosses two files the sound of
 the second was presented early when it does not begin where the first ends

---
 src/mg/media/mp4/mp4_fragments.fl |  5 +++++
 src/mg/media/mp4fragmented.h      | 11 +++++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/mg/media/mp4/mp4_fragments.fl b/src/mg/media/mp4/mp4_fragments.fl
index 2154f06..bd151ee 100644
--- a/src/mg/media/mp4/mp4_fragments.fl
+++ b/src/mg/media/mp4/mp4_fragments.fl
@@ -152,6 +152,11 @@ public:
           _duration += s_duration;
       }
       
+      void extend_last(unsigned int s_duration)
+      {
+          _samples.back()->sample_duration += s_duration;
+          _duration += s_duration;
+      }
       
 %}
      
diff --git a/src/mg/media/mp4fragmented.h b/src/mg/media/mp4fragmented.h
index 3b9ac16..44b67a0 100644
--- a/src/mg/media/mp4fragmented.h
+++ b/src/mg/media/mp4fragmented.h
@@ -410,6 +410,15 @@ public:
 		//_last_composition = composition_time;
 	}
 	
+	//the last sample added so far is presented until this long after the first
+	void present_until(uint64_t time)
+	{
+		time = TIMESCALE(time, _timescale);
+
+		if(_mdat.size() && time > _trun.get_duration())
+			_trun.extend_last(static_cast<uint32_t>(time - _trun.get_duration()));
+	}
+	
 	virtual void end(CMP4W & mp4w)
 	{
         
@@ -948,6 +957,8 @@ public:
 							, p_callback
 							, p_key);
 
+						//the second file may begin later than the first ends
+						m4f.present_until(end_time - start_time);
 
 						add_frames_to_m4f(
 							  m4f
-- 
2.43.0


From 8946874b1e64964474d361e10f7d4d6afffc7daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:54 +0000
Subject: [PATCH 56/72] fix: a file taken up to a time went on to where the
 next one begins, repeating its next picture

---
 src/mg/media/mp4dynamicinfo.h | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/src/mg/media/mp4dynamicinfo.h b/src/mg/media/mp4dynamicinfo.h
index 39051bc..dad866e 100644
--- a/src/mg/media/mp4dynamicinfo.h
+++ b/src/mg/media/mp4dynamicinfo.h
@@ -161,7 +161,7 @@ class DynamicPoints
 
 	std::map<int64_t, CrossPoint> _computed_cross;
 
-    std::set<int64_t> _file_cross;
+    std::map<int64_t, uint64_t> _file_cross; //where a file begins and the time up to which the one before was taken
 	
 
 public:
@@ -173,9 +173,9 @@ public:
 		_computed[computed_time] = composition;
 	}
 
-    void AddFileCross(int64_t computed_time)
+    void AddFileCross(int64_t computed_time, uint64_t end)
     {
-        _file_cross.insert(computed_time);
+        _file_cross.insert(std::pair<int64_t, uint64_t>(computed_time, end));
     }
 
 	void AddCross(uint64_t computed_time
@@ -322,8 +322,8 @@ public:
 			comp = cp.computed_time_2;
 		}
 
-        std::set<int64_t>::const_iterator ifilecross1 = _file_cross.upper_bound(comp);
-        std::set<int64_t>::const_iterator ifilecross2 = _file_cross.upper_bound(iter->first);
+        std::map<int64_t, uint64_t>::const_iterator ifilecross1 = _file_cross.upper_bound(comp);
+        std::map<int64_t, uint64_t>::const_iterator ifilecross2 = _file_cross.upper_bound(iter->first);
 
 		//if(orig > iter->second //changed file
         if(ifilecross1 != ifilecross2 //changed file
@@ -335,7 +335,8 @@ public:
 			_ASSERTE(comp != iter->first);
 			_ASSERTE(comp < iter->first);
 
-			return orig + (iter->first - comp);
+			//the next file may begin later than the end asked for
+			return std::min<uint64_t>(orig + (iter->first - comp), ifilecross1->second);
 
 		}
 
@@ -400,20 +401,20 @@ public:
 
         //////////////////////////////////////////////////////////////
 
-         std::set<int64_t> file_cross;
+         std::map<int64_t, uint64_t> file_cross;
 
-         std::set<int64_t>::const_iterator ifilecross;
+         std::map<int64_t, uint64_t>::const_iterator ifilecross;
 
          for(ifilecross = _file_cross.begin(); ifilecross != _file_cross.end(); ifilecross++)
          {
-             file_cross.insert((*ifilecross) + offset);
+             file_cross[ifilecross->first + offset] = ifilecross->second;
          }
 
          _file_cross.clear();
 
          for(ifilecross = file_cross.begin(); ifilecross != file_cross.end(); ifilecross++)
          {
-             _file_cross.insert((*ifilecross));
+             _file_cross.insert(*ifilecross);
          }
          
 		///////////////////////////////////////////////
@@ -509,6 +510,7 @@ class DynamicStream: public CCodecPrivateData
 	DynamicPoints       _points;
 
 	uint64_t    _current_end;
+	uint64_t    _current_original_end;
 
 protected:
 
@@ -531,7 +533,7 @@ public:
 
 	Cstring name;
 
-	DynamicStream(): _current_end(0)
+	DynamicStream(): _current_end(0), _current_original_end(UINT64_MAX)
 	{}
 
 	virtual ~DynamicStream()
@@ -561,7 +563,7 @@ public:
 
     void AddPointFileCross(int64_t computed_time)
     {
-        _points.AddFileCross(computed_time);
+        _points.AddFileCross(computed_time, _current_original_end);
     }
 
 	void AddPointCross(int64_t computed_time, int64_t composition, int64_t computed_time_2, int64_t composition_2)
@@ -582,7 +584,7 @@ public:
 	int64_t mint() const {return _points.mint();}
 	int64_t maxt() const {return _points.maxt();}
 
-	void set_current_end(uint64_t rhs){_current_end = rhs;}
+	void set_current_end(uint64_t rhs, uint64_t original_end){_current_end = rhs; _current_original_end = original_end;}
 	uint64_t get_current_end() const 
 	{
 
@@ -1187,6 +1189,7 @@ public:
 					_presentation.get_by_index(i)->set_current_end(
 							get_stream_end(i) 
 								+ this->_stream_start_offset[i]
+							, _current_end
 						);
 			}
 
-- 
2.43.0


From 75bf20b2e1d0cbb39d8f70681f3976da8226bb81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:41 +0000
Subject: [PATCH 57/72] fix: samples after the end asked for were left over for
 the next file, and read as a fragment without samples

---
 src/mg/media/mp4dynamic.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/mg/media/mp4dynamic.cpp b/src/mg/media/mp4dynamic.cpp
index ccf9bba..342017e 100644
--- a/src/mg/media/mp4dynamic.cpp
+++ b/src/mg/media/mp4dynamic.cpp
@@ -406,7 +406,18 @@ void CMP4DynamicDiscreate::publish_no_random_stream(
 
 		if( (reader.get_sample_count(stream) - p) < jump  ) //last sample 
 		{
-			if(_generate_only_full_fragment)
+			//samples after the end are not left over for the next file
+			uint64_t last = reader.get_sample_count(stream) - 1;
+
+			bool whole = (end > off + ((has_composition)
+				?reader.get_composition_time(last, stream)
+				:reader.get_decoding_time(last, stream)));
+
+			if(_generate_only_full_fragment && !whole)
+			{
+				//what there is before the end is the last fragment
+			}
+			else if(_generate_only_full_fragment)
 			{
 				_ASSERTE(0 == _reporting_start_time.count(stream));
 				 
-- 
2.43.0


From d00c2ba4ed4386300a03a58c261dd4cfd240eda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:39 +0000
Subject: [PATCH 58/72] fix: an MP4 whose samples all have one size was written
 without any size

---
 src/mg/media/mp4write.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mg/media/mp4write.h b/src/mg/media/mp4write.h
index 3acccdd..1a485f8 100644
--- a/src/mg/media/mp4write.h
+++ b/src/mg/media/mp4write.h
@@ -666,10 +666,10 @@ protected:
 		mp4w.open_box(box_stsz);
 		mp4w.write_box(stsz);
 
-		//if(_has_size)
+		if(_has_size || !_samples.size())
 			mp4w.write_uint(0x00);	
-		//else
-		//	mp4w.write_uint(_samples[0].size);
+		else
+			mp4w.write_uint(static_cast<uint32_t>(_samples[0].size));
 
 		mp4w.write_uint(ST_U32(_samples.size()));
 
-- 
2.43.0


From 3262332e7d6db0b1b502ed4efe15775700162008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:48 +0000
Subject: [PATCH 59/72] fix: an MP4 track with one sample was written with the
 times of two

---
 src/mg/media/mp4write.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mg/media/mp4write.h b/src/mg/media/mp4write.h
index 1a485f8..6d65691 100644
--- a/src/mg/media/mp4write.h
+++ b/src/mg/media/mp4write.h
@@ -477,7 +477,8 @@ protected:
 
 		if(_samples.size() || !_allow_empty_stream)
 		{
-			current_count++;
+			if(1 != _samples.size())
+				current_count++;
 
 			mp4w.write_uint(static_cast<uint32_t>(current_count));
 			mp4w.write_uint(sample_delta);
-- 
2.43.0


From 2a102cc8bd162ce7ed85cd638743646599fa3a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:56 +0000
Subject: [PATCH 60/72] fix: the video timescale asked for was given to the
 sound when muxing

---
 src/mgcli/mp4info.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mgcli/mp4info.cpp b/src/mgcli/mp4info.cpp
index d7d0ae1..2b36959 100644
--- a/src/mgcli/mp4info.cpp
+++ b/src/mgcli/mp4info.cpp
@@ -3736,7 +3736,7 @@ int do_mp4_mux(console_command &c, CMP4Edit & mp4edit)
             if(c.command_specified(_T("videotimescale")))
 			{
 				uint64_t videotimescale = c.get_value(_T("videotimescale"));
-				mp4edit.set_stream_time_scale(videotimescale);
+				mp4edit.set_stream_time_scale(videotimescale, false);
 
 				std::wcout << _T("SETTING VIDEO TIMESCALE ") << videotimescale << std::endl;
 			}
-- 
2.43.0


From 70df1e9a8c3738af71d78517ee98c1e5e81f60a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:36 +0000
Subject: [PATCH 61/72] fix: samples later than the end of another track by
 more than the distance were left out when muxing

---
 src/mg/media/mp4mux.h   | 2 ++
 src/mg/media/mp4write.h | 9 +++++++++
 2 files changed, 11 insertions(+)

diff --git a/src/mg/media/mp4mux.h b/src/mg/media/mp4mux.h
index 1bf45e2..2704c1f 100644
--- a/src/mg/media/mp4mux.h
+++ b/src/mg/media/mp4mux.h
@@ -363,6 +363,8 @@ public:
 
 	virtual void end()
 	{
+		_write.write_queued_samples(_body);
+
 		_body.close();
 
 		_write.compute_auto_decoding_time();
diff --git a/src/mg/media/mp4write.h b/src/mg/media/mp4write.h
index 6d65691..9214fe2 100644
--- a/src/mg/media/mp4write.h
+++ b/src/mg/media/mp4write.h
@@ -2180,6 +2180,15 @@ public:
 
 	}
 
+	//write the samples which are still waiting for the other streams
+	virtual void write_queued_samples(CMP4W & mp4w)
+	{
+		bool stream_over;
+
+		for(uint32_t i = 0; i < _streams.size(); i++)
+			_streams[i]->write_samples(INT64_MAX, mp4w, stream_over, _use_composition_in_distance);
+	}
+
 	virtual void write_ftyp(CMP4W &mp4w, uint32_t type = box_ftyp)
 	{
 		mp4w.write_child_box(box_ftyp, _ftyp);
-- 
2.43.0


From 5916925afd066521559d83f532bf9cb94f48332a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:54 +0000
Subject: [PATCH 62/72] fix: the list of groups of pictures repeated the last
 group and crashed without a table of sync samples

---
 src/mg/media/mp4parse.h | 18 ++++++++++++++++++
 src/mgcli/mp4info.cpp   | 32 +++++++++-----------------------
 2 files changed, 27 insertions(+), 23 deletions(-)

diff --git a/src/mg/media/mp4parse.h b/src/mg/media/mp4parse.h
index 59ce570..2b25751 100644
--- a/src/mg/media/mp4parse.h
+++ b/src/mg/media/mp4parse.h
@@ -2343,6 +2343,17 @@ public:
 		 return _time_manager.get_IFrame_number(last_media_time(time));
 	}
 
+	uint64_t get_next_IFrame_number(uint64_t sample_number)
+	{
+		do
+		{
+			sample_number++;
+		}
+		while(sample_number < get_sample_count() && !_time_manager.is_IFrame(sample_number));
+
+		return sample_number;
+	}
+
 	uint64_t get_next_IFrame_time()
 	{
 		uint64_t sample = _time_manager.get_next_IFrame_number();
@@ -2832,6 +2843,13 @@ public:
 	   return _streams[stream_number]->get_next_IFrame_time();
 	}
 
+	//the random access point after a sample: the sample count when there is none
+	uint64_t get_next_IFrame_number(const uint64_t sample_number, const unsigned int stream_number)
+	{
+	   _ASSERTE(stream_number < _streams.size());
+	   return _streams[stream_number]->get_next_IFrame_number(sample_number);
+	}
+
 	uint64_t get_sample_count(const unsigned int stream_number) const
 	{
 		_ASSERTE(stream_number < _streams.size());
diff --git a/src/mgcli/mp4info.cpp b/src/mgcli/mp4info.cpp
index 2b36959..a149bb4 100644
--- a/src/mgcli/mp4info.cpp
+++ b/src/mgcli/mp4info.cpp
@@ -2916,7 +2916,7 @@ int gop_list( uint64_t start
 	std::wcout << _T("Duration ") << HNS(reader.get_duration()) << std::endl;
 
 	if(0 == end)
-		end = reader.get_duration();
+		end = UINT64_MAX;
 
 	unsigned int video(UINT32_MAX);
 	
@@ -2941,34 +2941,20 @@ int gop_list( uint64_t start
 
 	uint64_t offset   = reader.get_stream_offset(video);
 	uint64_t sample   = reader.get_IFrame_number(start, video);
-	uint64_t time     = reader.get_composition_time(sample, video);
-    uint64_t decoding = reader.get_decoding_time(sample, video);
-
-	uint64_t next_time = UINT64_MAX;
+	uint64_t time     = 0;
 
-	std::wcout << video << _T("\t") 
-		<< sample << _T("\t") << HNS(time) 
-			<< _T("\t")
-			<< time
-	        << _T("\t")
-			<< HNS(decoding)
-
-			<< std::endl;
-
-	while(next_time > time && time < end)
+	//from the gop at start to the first that is not before end
+	for(; sample < reader.get_sample_count(video) && time < end
+		; sample = reader.get_next_IFrame_number(sample, video))
 	{
-		if(UINT64_MAX > next_time)
-		   time = next_time;
+		uint64_t decoding = reader.get_decoding_time(sample, video);
 
-		next_time = reader.get_next_IFrame_time(video);
-		sample    = reader.get_IFrame_number(next_time, video);
-		decoding = reader.get_decoding_time(sample, video);
-                
+		time = reader.get_composition_time(sample, video);
 
 		std::wcout << video << _T("\t") 
-			<< sample << _T("\t") << HNS(next_time) 
+			<< sample << _T("\t") << HNS(time) 
 			<< _T("\t")
-			<< next_time
+			<< time
 			<< _T("\t")
 			<< HNS(decoding)
 			<< std::endl;
-- 
2.43.0


From 8e2f5185a4b836bfe0b0f1dd6b8a8bfd4b057ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:24 +0000
Subject: [PATCH 63/72] fix: trailing bits of a picture parameter set were read
 as its extension

---
 src/mg/media/mp4/h264.fl | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/mg/media/mp4/h264.fl b/src/mg/media/mp4/h264.fl
index d3508ec..771ff37 100644
--- a/src/mg/media/mp4/h264.fl
+++ b/src/mg/media/mp4/h264.fl
@@ -362,17 +362,19 @@ class pic_parameter_set_rbsp
 	unsigned int(1) redundant_pic_cnt_present_flag;
 
 	
-	/////extended///////
-	uint64_t end_size = numbits() + (numbits() % 8);
+	/////extended when more than the trailing bits is left///////
+	uint64_t end_size = numbits() - start_size;
 	unsigned int extended = 0;
 
-	%g{ if(_size && 
-	             ( ( (end_size) - start_size) / 8) < _size
-			) 
-			extended = 1;
+	%g{ if(end_size < 8ULL * _size)
+		{
+			uint64_t left = 8ULL * _size - end_size;
+
+			if(8 < left || var_bs.nextbits((unsigned int)left) != (1U << (left - 1)))
+				extended = 1;
+		}
 	%g}
 
-	
 	if(extended)
 	{
 		unsigned int(1) transform_8x8_mode_flag;
-- 
2.43.0


From b02322161a1c2c53483535e6f61ed067f9df22cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:57 +0000
Subject: [PATCH 64/72] fix: skipping a box whose header has a 64-bit size or a
 uuid went past its end

---
 src/mg/media/mp4parse.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mg/media/mp4parse.h b/src/mg/media/mp4parse.h
index 2b25751..ac7b43d 100644
--- a/src/mg/media/mp4parse.h
+++ b/src/mg/media/mp4parse.h
@@ -576,7 +576,7 @@ public:
 	void skip_current()
 	{
 		_ASSERTE(_current_box.get_size() > 8);
-		skipbytes(_current_box.get_size() - 8);
+		skipbytes(get_box_position_end() - get_position()); //the header may be longer than 8
 	}
 
 	const Box & get_box() const {return _current_box;}
-- 
2.43.0


From 9de7f199b3e0bc633f3ad5079ee20781c83ef7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:22 +0000
Subject: [PATCH 65/72] fix: an MP4 file without its index, or with part of it,
 was used as if it was whole or read for ever

---
 src/mg/media/mp4parse.h | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/mg/media/mp4parse.h b/src/mg/media/mp4parse.h
index ac7b43d..b8f2650 100644
--- a/src/mg/media/mp4parse.h
+++ b/src/mg/media/mp4parse.h
@@ -558,6 +558,13 @@ public:
 		return true;
 	}
 
+	//the next box of a container that is not complete yet
+	void need_box()
+	{
+		if(!do_box())
+			throw EndOfData(__FILE__, __LINE__);
+	}
+
 	bool move_box_start()
 	{
 		set_position(_box_position);
@@ -1468,7 +1475,7 @@ protected:
 		if(mp4.get_position() >= (_minf_position + _minf_size))
 				MP4ERROR(_T("sample description not found"));
 
-		  mp4.do_box();
+		  mp4.need_box();
 		  parse_boxes(mp4);
 	}
 	
@@ -1489,7 +1496,7 @@ protected:
 			mp4.parse_sample_description_box(_stsd);
 			for(unsigned int i = 0; i < _stsd.entry_count; i++)
 			{
-				mp4.do_box();
+				mp4.need_box();
 				parse_sample_description(mp4);
 				_has_sample_description = true;
 			}
@@ -1517,9 +1524,9 @@ public:
 		_minf_position = mp4.get_box_position();
 		_minf_size     = mp4.get_box().get_size();
 
-		mp4.do_box();
+		mp4.need_box();
 		if(parse_header(mp4))
-			mp4.do_box();
+			mp4.need_box();
 
 		parse_boxes(mp4);
 	}
@@ -1624,7 +1631,7 @@ class CMP4VisualEntry
 	{
 		while(mp4.get_position() < _visual_end)
 		{
-			mp4.do_box();
+			mp4.need_box();
 			switch(mp4.get_box().get_type())
 			{
 			case box_avcC:
@@ -1995,7 +2002,7 @@ protected:
 			return;
 		}
 
-		mp4.do_box();
+		mp4.need_box();
 		parse_boxes(mp4);
 		
 	}
@@ -2155,7 +2162,7 @@ protected:
 
 		if(mp4.get_position() < (_trak_position + _trak_size))
 		{
-		  mp4.do_box();
+		  mp4.need_box();
 		  parse_boxes(mp4);
 		}
 	
@@ -2518,7 +2525,7 @@ public:
 
 		read_position(mp4);
 
-		mp4.do_box();
+		mp4.need_box();
 
 		parse_boxes(mp4);
 	}
@@ -2618,6 +2625,7 @@ class MP4Reader
 	MovieHeaderBox          _mvhd;
 	uint64_t        _mdat_position;
 	uint64_t        _moov_position;
+	uint64_t        _moov_end;
 	std::vector<uint64_t> _meta_position;
 	uint64_t        _mdat_end;
 
@@ -2664,6 +2672,7 @@ private:
 			break;
 		case box_moov:
 			_moov_position = mp4.get_box_position();
+			_moov_end      = mp4.get_box_position_end();
 			break;
 		case box_trak:
 			ptrack = new CPM4Track(_mvhd.get_timescale());
@@ -2704,6 +2713,8 @@ public:
 
 	MP4Reader():
 	  _mdat_position(0)
+	, _moov_position(0)
+	, _moov_end(0)
     , _mdat_end(0)
 	, _p_ftyp(NULL)
 	, _last_offset(0)
@@ -2720,7 +2731,9 @@ public:
 
 		parse_boxes(mp4);
 
-		
+		//the index is missing or cut
+		if(0 == _moov_end || mp4.get_position() < _moov_end)
+			throw EndOfData(__FILE__, __LINE__);
 	}
 
 	void close()
-- 
2.43.0


From 3b4c32249d1407870beae5b0d42f9b581f9b7288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:22 +0000
Subject: [PATCH 66/72] fix: samples past the end of an MP4 file were taken
 from uninitialised memory

---
 src/mg/media/mp4parse.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mg/media/mp4parse.h b/src/mg/media/mp4parse.h
index b8f2650..c6fc961 100644
--- a/src/mg/media/mp4parse.h
+++ b/src/mg/media/mp4parse.h
@@ -519,7 +519,8 @@ public:
 		_p_f->read(static_cast<unsigned char*>(pbyte), s, &cb_read);
 		
 
-		_ASSERTE(cb_read == s);
+		if(cb_read != s)
+			throw EndOfData(__FILE__, __LINE__);
 		
 	}
 
-- 
2.43.0


From 51f218aea975e25827267b515b00879a0e93d872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:23 +0000
Subject: [PATCH 67/72] fix: the size of a file written and moved in was its
 position, a file object opened again kept the old one's

---
 src/mg/core/file.cpp | 9 ++++++++-
 src/mg/core/file.h   | 9 ++-------
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/mg/core/file.cpp b/src/mg/core/file.cpp
index dc1966c..b3ec80a 100644
--- a/src/mg/core/file.cpp
+++ b/src/mg/core/file.cpp
@@ -171,6 +171,10 @@ CResource<CPromise<uv_fs_t> > cfile::open(const TCHAR * path, int flags, bool as
 
 	_ASSERTE(0 == _file);
 
+	//nothing is left of a file opened before
+	_position = 0;
+	::memset(&_file_stat, 0, sizeof(uv_stat_t));
+
 	uv_fs_t req;
 	
 		
@@ -381,6 +385,9 @@ CResource<CPromise<uv_fs_t>> cfile::write(const unsigned char * p_buffer, uint32
 	} while (0);
 
 	_position += size;
+
+	if (_position > _file_stat.st_size)
+		_file_stat.st_size = _position;
 	
 	return f;
 }
@@ -421,7 +428,7 @@ CResource<CPromise<CBuffer<unsigned char>>> cfile::read(uint32_t size)
 		uint64_t    pos = _position;
 
 		if ((pos + size) > this->size())
-			size = static_cast<uint32_t>(this->size() - pos);
+			size = (pos < this->size()) ? static_cast<uint32_t>(this->size() - pos) : 0;
 
 #ifdef _DEBUG
 		//cb->_sequence = _leave_r_sequence++;
diff --git a/src/mg/core/file.h b/src/mg/core/file.h
index 181ae0b..bf489d1 100644
--- a/src/mg/core/file.h
+++ b/src/mg/core/file.h
@@ -118,13 +118,8 @@ public:
 
 	CResource<CPromise<CBuffer< unsigned char  > > > read(uint32_t size);
 
-	uint64_t size() const { 
-		
-		if (_position >= _file_stat.st_size && 0 < _position) //we are writing
-			return _position /*+ 1*/;
-
-		return _file_stat.st_size; 
-	}
+	//the size when opened, or the end of what was written since
+	uint64_t size() const { return _file_stat.st_size; }
 
 	CResource<CPromise<uv_fs_t> > close(bool async = true);
 
-- 
2.43.0


From b217610cadf09d70acb5e7a33b7af3d708187e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:31 +0000
Subject: [PATCH 68/72] fix: the name of the compressor written for a video
 track was uninitialised memory

---
 src/mg/media/mp4parse.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mg/media/mp4parse.h b/src/mg/media/mp4parse.h
index c6fc961..e23d263 100644
--- a/src/mg/media/mp4parse.h
+++ b/src/mg/media/mp4parse.h
@@ -1724,6 +1724,7 @@ public:
         _visual.vertresolution = vertresolution;
         _visual.frame_count = 1;
         _visual.size = 0;
+		::memset(&_visual.compressorname[0], 0, sizeof(_visual.compressorname));
 
 	/////////////////////////IOS 7////////////////////
 		_visual.depth = 0;
-- 
2.43.0


From 2919c32cbd77b23bb14d66e24abd426c4817d51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:31 +0000
Subject: [PATCH 69/72] fix: positions over 4 GB in a file were cut to 32 bits

---
 src/mg/core/file.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/mg/core/file.h b/src/mg/core/file.h
index bf489d1..b9498f4 100644
--- a/src/mg/core/file.h
+++ b/src/mg/core/file.h
@@ -251,11 +251,20 @@ public:
 		size_t r = ::fflush(_f);
 	}
 
-	virtual uint64_t get_position() const { return ::ftell(_f); }
+	//positions can be over 4 GB
+#ifdef _WIN32
+	virtual uint64_t get_position() const { return ::_ftelli64(_f); }
 
 	virtual void     set_position(uint64_t rhs) {
-		::fseek(_f, static_cast<uint32_t>(rhs), SEEK_SET);
+		::_fseeki64(_f, rhs, SEEK_SET);
 	}
+#else
+	virtual uint64_t get_position() const { return ::ftello(_f); }
+
+	virtual void     set_position(uint64_t rhs) {
+		::fseeko(_f, rhs, SEEK_SET);
+	}
+#endif
 
 	void close()
 	{
-- 
2.43.0


From 02312e16f7d974553fd80b336b57cc3f8b9bbb5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:45 +0000
Subject: [PATCH 70/72] fix: fields a sequence parameter set does not have were
 left uninitialised

---
 src/mg/media/mp4/h264.fl | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/mg/media/mp4/h264.fl b/src/mg/media/mp4/h264.fl
index 771ff37..851e962 100644
--- a/src/mg/media/mp4/h264.fl
+++ b/src/mg/media/mp4/h264.fl
@@ -169,7 +169,7 @@ public:
 
 class H264Sequence
 {
-  unsigned int log2_max_pic_order_cnt_lsb_minus4;
+  unsigned int log2_max_pic_order_cnt_lsb_minus4 = 0;
 
 
   unsigned int(8) profile_idc;
@@ -182,13 +182,13 @@ class H264Sequence
   unsigned int    seq_parameter_set_id;  %g{seq_parameter_set_id = exp_ue_golomb(var_bs);%g}
   
   unsigned int chroma_format_idc = 0;
-  unsigned int bit_depth_luma;   
-  unsigned int bit_depth_chroma;
+  unsigned int bit_depth_luma = 0;   
+  unsigned int bit_depth_chroma = 0;
 
-  unsigned int frame_crop_left_offset;   
-  unsigned int frame_crop_right_offset;  
-  unsigned int frame_crop_top_offset;    
-  unsigned int frame_crop_bottom_offset; 
+  unsigned int frame_crop_left_offset = 0;   
+  unsigned int frame_crop_right_offset = 0;  
+  unsigned int frame_crop_top_offset = 0;    
+  unsigned int frame_crop_bottom_offset = 0; 
   
   unsigned int offset_for_non_ref_pic = 0;         
   unsigned int offset_for_top_to_bottom_field = 0; 
-- 
2.43.0


From 2a804561d401e0208d97ec839833daed47295da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:38 +0000
Subject: [PATCH 71/72] fix: the earliest time in the segment index was cut to
 32 bits (after seven minutes at 10 MHz)

---
 src/mg/media/mp4fragmented.h | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/mg/media/mp4fragmented.h b/src/mg/media/mp4fragmented.h
index 44b67a0..9f39432 100644
--- a/src/mg/media/mp4fragmented.h
+++ b/src/mg/media/mp4fragmented.h
@@ -443,10 +443,19 @@ public:
                             
                             sidx.reference_ID = _tfhd.track_ID;
                             sidx.timescale = U64_ST(_timescale);//1000UL * 10000UL;
-                            sidx.set_earliest_presentation_time(
-                                    _trun.get_item(0).sample_composition_time_offset + _baseMediaDecodeTime
-                            );
+
+            const uint64_t earliest = _trun.get_item(0).sample_composition_time_offset + _baseMediaDecodeTime;
+
+                            //32 bits are not enough for every time
+                            if(UINT32_MAX < earliest)
+                            {
+                                sidx.set_version(1);
+                                sidx_referenced_size_position += 8;
+                            }
+
+                            sidx.set_earliest_presentation_time(earliest);
                             
+
                             sidx.set_first_offset(0);
 
                             sidx.reference_count = 1;
-- 
2.43.0


From 385e990588a6ba80de87761bfa6da72bef69fb64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:10 +0000
Subject: [PATCH 72/72] fix: reserved bits of the transport stream's tables
 were uninitialised memory

---
 src/mg/media/tswrite.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mg/media/tswrite.h b/src/mg/media/tswrite.h
index 224f13a..42fb2e6 100644
--- a/src/mg/media/tswrite.h
+++ b/src/mg/media/tswrite.h
@@ -308,6 +308,7 @@ protected:
 		
 		base.marker = 0;
 		base.reserved = 0;
+		base.reserved2 = 0;
 		base.id = 1;
 		base.version_number = 0;
 		base.current_next_indicator = 1;
@@ -323,6 +324,8 @@ protected:
 		
 		init_base(_pas);
 
+		_pas.reserved3 = 0;
+
 		_pas.CRC_32 = 0;
 
 		_continuity_counter[0] = 0;
-- 
2.43.0

