From 5ec034c8dc5b924d6bcae4b89dc9795d2f79868a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:59 +0000
Subject: [PATCH 01/24] fix: setting a future's scheduler raced with the thread
 completing it

co_await on the future of an awaitable_t wrote the state's scheduler without
the state's lock, while set_value()/set_exception() on another thread reads it
under that lock.
---
 include/librf/src/state.h | 4 +++-
 source/state.cpp          | 6 ++++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/librf/src/state.h b/include/librf/src/state.h
index e4ed56e..8353e72 100644
--- a/include/librf/src/state.h
+++ b/include/librf/src/state.h
@@ -38,7 +38,7 @@ namespace librf
 		LIBRF_API virtual bool has_handler() const  noexcept;
 		LIBRF_API virtual state_base_t* get_parent() const noexcept;
 
-		void set_scheduler(scheduler_t* sch) noexcept
+		virtual void set_scheduler(scheduler_t* sch) noexcept
 		{
 			_scheduler = sch;
 		}
@@ -137,6 +137,8 @@ namespace librf
 		LIBRF_API virtual void resume() override;
 		LIBRF_API virtual bool has_handler() const  noexcept override;
 		LIBRF_API virtual state_base_t* get_parent() const noexcept override;
+		//另一个线程可能正在通过awaitable_t<>设置值，从而读取_scheduler
+		LIBRF_API virtual void set_scheduler(scheduler_t* sch) noexcept override;
 
 		inline bool is_ready() const noexcept
 		{
diff --git a/source/state.cpp b/source/state.cpp
index a6f551c..da9ba1c 100644
--- a/source/state.cpp
+++ b/source/state.cpp
@@ -164,6 +164,12 @@ namespace librf
 		return has_handler_skip_lock();
 	}
 
+	LIBRF_API void state_future_t::set_scheduler(scheduler_t* sch) noexcept
+	{
+		scoped_lock<lock_type> __guard(this->_mtx);
+		_scheduler = sch;
+	}
+
 	LIBRF_API bool state_future_t::switch_scheduler_await_suspend(scheduler_t* sch)
 	{
 		assert(sch != nullptr);
-- 
2.43.0


From a53c6c0f1623457670796c6ab0861e182235f700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:59 +0000
Subject: [PATCH 02/24] fix: awaitable_t<void> failed before co_await never
 resumed its waiter

state_t<void>::set_exception() did not mark the state as completed, so a
co_await that came after throw_exception()/set_exception() waited for ever.
---
 source/state.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/state.cpp b/source/state.cpp
index da9ba1c..2d76853 100644
--- a/source/state.cpp
+++ b/source/state.cpp
@@ -225,6 +225,7 @@ namespace librf
 	{
 		scoped_lock<lock_type> __guard(this->_mtx);
 		this->_exception = std::move(e);
+		this->_has_value.store(result_type::Exception, std::memory_order_release);
 
 		scheduler_t* sch = this->get_scheduler();
 		if (sch != nullptr)
-- 
2.43.0


From fc85c182ddf14e9384571c1084aeeda07abecf10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:46 +0000
Subject: [PATCH 03/24] fix: stopping a timer from another thread raced with
 the timer's expiry

timer_handler::stop() is called from other threads (a signalled event stops
its waiter's timeout timer); the plain state word let stop() report success
for a timer whose callback then saw an expiry.
---
 include/librf/src/timer.h |  2 +-
 source/timer.cpp          | 17 ++++++++---------
 2 files changed, 9 insertions(+), 10 deletions(-)

diff --git a/include/librf/src/timer.h b/include/librf/src/timer.h
index fae73a5..4c38cdf 100644
--- a/include/librf/src/timer.h
+++ b/include/librf/src/timer.h
@@ -27,7 +27,7 @@ namespace librf
 			};
 			timer_clock_type::time_point	tp;
 			timer_callback_type				cb;
-			State							st = State::Invalid;
+			std::atomic<State>				st{ State::Invalid };	//stop()可能在其它线程调用
 #if _DEBUG
 		private:
 			timer_manager *					_manager = nullptr;
diff --git a/source/timer.cpp b/source/timer.cpp
index db8492b..fa8568d 100644
--- a/source/timer.cpp
+++ b/source/timer.cpp
@@ -62,14 +62,13 @@ namespace librf
 
 	LIBRF_API bool timer_manager::stop(const timer_target_ptr & sptr)
 	{
-		if (!sptr || sptr->st == timer_target::State::Invalid) 
+		if (!sptr) 
 			return false;
 #if _DEBUG
-		assert(sptr->_manager == this);
+		assert(sptr->_manager == this || sptr->st == timer_target::State::Invalid);
 #endif
-		sptr->st = timer_target::State::Invalid;
-
-		return true;
+		//只有一次stop()能成功；成功后，回调函数必然收到canceld=true
+		return sptr->st.exchange(timer_target::State::Invalid) != timer_target::State::Invalid;
 	}
 
 	LIBRF_API void timer_manager::update()
@@ -89,14 +88,14 @@ namespace librf
 
 				for (auto& sptr : _atimer)
 				{
-					if (sptr->st == timer_target::State::Added)
+					auto st = timer_target::State::Added;
+					if (sptr->st.compare_exchange_strong(st, timer_target::State::Runing))
 					{
-						sptr->st = timer_target::State::Runing;
 						_runing_timers.insert({ sptr->tp, sptr });
 					}
 					else
 					{
-						assert(sptr->st == timer_target::State::Invalid);
+						assert(st == timer_target::State::Invalid);
 						call_target_(sptr, true);
 					}
 				}
@@ -114,7 +113,7 @@ namespace librf
 				if (kv.first > now_)
 					break;
 
-				call_target_(kv.second, kv.second->st == timer_target::State::Invalid);
+				call_target_(kv.second, kv.second->st.exchange(timer_target::State::Invalid) == timer_target::State::Invalid);
 			}
 
 			_runing_timers.erase(_runing_timers.begin(), iter);
-- 
2.43.0


From b331710e91406baf7b3ba1862e680298896e240e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:46 +0000
Subject: [PATCH 04/24] fix: timer_manager::empty() raced with add() from
 another thread

---
 include/librf/src/timer.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/librf/src/timer.h b/include/librf/src/timer.h
index 4c38cdf..8cb40dc 100644
--- a/include/librf/src/timer.h
+++ b/include/librf/src/timer.h
@@ -123,6 +123,9 @@ namespace librf
 
 		inline bool empty() const
 		{
+#if !RESUMEF_DISABLE_MULT_THREAD
+			scoped_lock<spinlock> __lock(_added_mtx);
+#endif
 			return _runing_timers.empty() && _added_timers.empty();
 		}
 		LIBRF_API void clear();
@@ -141,7 +144,7 @@ namespace librf
 		}
 	private:
 #if !RESUMEF_DISABLE_MULT_THREAD
-		spinlock _added_mtx;
+		mutable spinlock _added_mtx;
 #endif
 		timer_vector_type	_added_timers;
 		timer_map_type		_runing_timers;
-- 
2.43.0


From 12857aeea96f318b03c1327379af1186bfadf257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:13 +0000
Subject: [PATCH 05/24] fix: timer_manager::clear() from a timer's callback
 crashed

update() kept an iterator into the container that clear() empties; it also
walked timers just taken over from other threads outside of the reach of
clear().
---
 source/timer.cpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/source/timer.cpp b/source/timer.cpp
index fa8568d..1c5adc1 100644
--- a/source/timer.cpp
+++ b/source/timer.cpp
@@ -86,6 +86,7 @@ namespace librf
 				__lock.unlock();
 #endif
 
+				timer_vector_type _ctimer;
 				for (auto& sptr : _atimer)
 				{
 					auto st = timer_target::State::Added;
@@ -96,9 +97,12 @@ namespace librf
 					else
 					{
 						assert(st == timer_target::State::Invalid);
-						call_target_(sptr, true);
+						_ctimer.push_back(std::move(sptr));
 					}
 				}
+
+				for (auto& sptr : _ctimer)
+					call_target_(sptr, true);
 			}
 		}
 
@@ -106,17 +110,16 @@ namespace librf
 		{
 			auto now_ = clock_type::now();
 
+			//回调函数里可能调用clear()，故先从容器里移除，再调用回调函数
 			auto iter = _runing_timers.begin();
-			for (; iter != _runing_timers.end(); ++iter)
+			while (iter != _runing_timers.end() && iter->first <= now_)
 			{
-				auto & kv = *iter;
-				if (kv.first > now_)
-					break;
+				auto sptr = std::move(iter->second);
+				_runing_timers.erase(iter);
 
-				call_target_(kv.second, kv.second->st.exchange(timer_target::State::Invalid) == timer_target::State::Invalid);
+				call_target_(sptr, sptr->st.exchange(timer_target::State::Invalid) == timer_target::State::Invalid);
+				iter = _runing_timers.begin();
 			}
-
-			_runing_timers.erase(_runing_timers.begin(), iter);
 		}
 	}
 }
\ No newline at end of file
-- 
2.43.0


From b6ee812c57dd623e6d64f3322e819eb940375273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:50 +0000
Subject: [PATCH 06/24] fix: event_t::wait_all()/wait_all_for() used freed
 locks and could deadlock on timeout

---
 include/librf/src/event_v2.inl | 12 +++++++-----
 source/event_v2.cpp            | 29 +++++++++++++++--------------
 2 files changed, 22 insertions(+), 19 deletions(-)

diff --git a/include/librf/src/event_v2.inl b/include/librf/src/event_v2.inl
index 5c7631f..556ef72 100644
--- a/include/librf/src/event_v2.inl
+++ b/include/librf/src/event_v2.inl
@@ -462,11 +462,8 @@ namespace librf
 			lockes.push_back(_state->_lock);
 			(void)_state->on_await_suspend(handler);
 
-			if constexpr (!std::is_same_v<std::remove_reference_t<_Timeout>, std::nullptr_t>)
-			{
-				cb();
-			}
-
+			//保证_state->_lock在lock_析构之前有效
+			counted_ptr<detail::state_event_all_t> hold_ = _state;
 			batch_lock_t<ref_lock_type> lock_(lockes);
 
 			intptr_t idx = 0;
@@ -495,6 +492,11 @@ namespace librf
 				return false;
 			}
 
+			if constexpr (!std::is_same_v<std::remove_reference_t<_Timeout>, std::nullptr_t>)
+			{
+				cb();
+			}
+
 			return true;
 		}
 
diff --git a/source/event_v2.cpp b/source/event_v2.cpp
index 28b9d00..a6c5c1e 100644
--- a/source/event_v2.cpp
+++ b/source/event_v2.cpp
@@ -78,6 +78,8 @@ namespace librf
 
 		LIBRF_API bool state_event_all_t::on_notify(event_v2_impl*, intptr_t idx)
 		{
+			//协程可能在_lock释放之前就在另外一个线程里被恢复并结束了，故需要保证本对象存活到_lock释放之后
+			counted_ptr<state_event_all_t> hold_{ this };
 			scoped_lock<event_v2_impl::lock_type> lock_(_lock);
 
 			if (_counter <= 0) return false;
@@ -110,24 +112,23 @@ namespace librf
 
 		LIBRF_API bool state_event_all_t::on_timeout()
 		{
-			scoped_lock<event_v2_impl::lock_type> lock_(_lock);
+			std::vector<sub_state_t> values;
+			{
+				scoped_lock<event_v2_impl::lock_type> lock_(_lock);
 
-			if (_counter <= 0) return false;
+				if (_counter <= 0) return false;
 
-			_counter = 0;
-			*_result = false;
-			_thandler.reset();
+				_counter = 0;
+				*_result = false;
+				_thandler.reset();
+				values.swap(_values);
+			}
 
-			for (sub_state_t& sub : _values)
+			//signal()的加锁顺序是先event_v2_impl::_lock，后_lock。故这里不能在持有_lock的情况下调用remove_wait_list()
+			for (sub_state_t& sub : values)
 			{
-				if (sub.first != nullptr)
-				{
-					event_v2_impl* evt = sub.second;
-					sub.second = nullptr;
-
-					if (evt != nullptr)
-						evt->remove_wait_list(sub.first);
-				}
+				if (sub.first != nullptr && sub.second != nullptr)
+					sub.second->remove_wait_list(sub.first.get());
 			}
 
 			assert(this->_scheduler != nullptr);
-- 
2.43.0


From 1105a118d1db5c93f6ac3a9641e460f20d6e3f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:50 +0000
Subject: [PATCH 07/24] fix: an event_t destroyed while it is waited for left
 its waiters with a dangling pointer

---
 include/librf/src/event_v2.inl | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/include/librf/src/event_v2.inl b/include/librf/src/event_v2.inl
index 556ef72..1f9f019 100644
--- a/include/librf/src/event_v2.inl
+++ b/include/librf/src/event_v2.inl
@@ -105,7 +105,7 @@ namespace librf
 
 		struct state_event_all_t : public state_base_t
 		{
-			using sub_state_t = std::pair<counted_ptr<state_event_base_t>, detail::event_v2_impl*>;
+			using sub_state_t = std::pair<counted_ptr<state_event_base_t>, std::shared_ptr<detail::event_v2_impl>>;
 
 			state_event_all_t(intptr_t count, bool& val)
 				: _counter(count)
@@ -186,8 +186,9 @@ namespace librf
 
 	struct [[nodiscard]] event_t::awaiter
 	{
-		awaiter(detail::event_v2_impl* evt) noexcept
-			: _event(evt)
+		awaiter(event_impl_ptr evt) noexcept
+			: _event(evt.get())
+			, _holder(std::move(evt))
 		{
 		}
 		~awaiter()
@@ -240,17 +241,18 @@ namespace librf
 
 	protected:
 		detail::event_v2_impl* _event;
+		event_impl_ptr _holder;						//等待期间，即使event_t提前销毁，也要保证内部的事件实现有效
 		counted_ptr<detail::state_event_t> _state;
 	};
 
 	inline event_t::awaiter event_t::operator co_await() const noexcept
 	{
-		return { _event.get() };
+		return { _event };
 	}
 
 	inline event_t::awaiter event_t::wait() const noexcept
 	{
-		return { _event.get() };
+		return { _event };
 	}
 
 	template<class _Btype>
@@ -283,14 +285,14 @@ namespace librf
 	inline event_t::timeout_awaiter event_t::wait_for(const std::chrono::duration<_Rep, _Period>& dt) const noexcept
 	{
 		clock_type::time_point tp2 = clock_type::now() + std::chrono::duration_cast<clock_type::duration>(dt);
-		return { tp2, _event.get() };
+		return { tp2, _event };
 	}
 
 	template<class _Clock, class _Duration>
 	inline event_t::timeout_awaiter event_t::wait_until(const std::chrono::time_point<_Clock, _Duration>& tp) const noexcept
 	{
 		clock_type::time_point tp2 = std::chrono::time_point_cast<clock_type::duration>(tp);
-		return { tp2, _event.get() };
+		return { tp2, _event };
 	}
 
 
@@ -473,12 +475,12 @@ namespace librf
 				if (evt->try_wait_one())
 				{
 					--_state->_counter;
-					_state->_values[idx].second = evt;
+					_state->_values[idx].second = (*iter)._event;
 				}
 				else
 				{
 					auto* proxy = new detail::state_event_proxy_t<detail::state_event_all_t>(_state.get(), idx);
-					_state->_values[idx] = detail::state_event_all_t::sub_state_t{ proxy, evt };
+					_state->_values[idx] = detail::state_event_all_t::sub_state_t{ proxy, (*iter)._event };
 
 					evt->add_wait_list(proxy);
 				}
-- 
2.43.0


From d75af370a6346fd42a6b131c3d303aafb047f0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:50 +0000
Subject: [PATCH 08/24] fix: event_t::reset() concurrent with a wait could
 leave a phantom signal

---
 source/event_v2.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/event_v2.cpp b/source/event_v2.cpp
index a6c5c1e..2289018 100644
--- a/source/event_v2.cpp
+++ b/source/event_v2.cpp
@@ -204,6 +204,8 @@ namespace librf
 
 		LIBRF_API void event_v2_impl::reset() noexcept
 		{
+			scoped_lock<lock_type> lock_(_lock);
+
 			_counter.store(0, std::memory_order_release);
 		}
 
-- 
2.43.0


From 952badcf1d4163b541ba62a6980d3b3ff058779c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:01 +0000
Subject: [PATCH 09/24] fix: a timed out mutex_t::try_lock_for() left a stale
 waiter behind

---
 include/librf/src/mutex_v2.inl |  1 +
 source/mutex_v2.cpp            | 13 +++++++++++++
 2 files changed, 14 insertions(+)

diff --git a/include/librf/src/mutex_v2.inl b/include/librf/src/mutex_v2.inl
index fdadfbe..40b63e0 100644
--- a/include/librf/src/mutex_v2.inl
+++ b/include/librf/src/mutex_v2.inl
@@ -48,6 +48,7 @@ namespace librf
 			LIBRF_API bool try_lock_until(clock_type::time_point tp, void* sch);	//内部加锁
 			LIBRF_API bool unlock(void* sch);						//内部加锁
 			LIBRF_API void lock_until_succeed(void* sch);			//内部加锁
+			LIBRF_API void remove_wait_list(state_mutex_t* state);	//内部加锁
 		public:
 			static constexpr bool USE_SPINLOCK = true;
 
diff --git a/source/mutex_v2.cpp b/source/mutex_v2.cpp
index 942ed3c..dbf6d86 100644
--- a/source/mutex_v2.cpp
+++ b/source/mutex_v2.cpp
@@ -62,9 +62,14 @@ namespace librf
 			mutex_v2_impl** oldValue = _value.load(std::memory_order_acquire);
 			if (oldValue != nullptr && _value.compare_exchange_strong(oldValue, nullptr, std::memory_order_acq_rel))
 			{
+				mutex_v2_impl* mtx = *oldValue;
 				*oldValue = nullptr;
 				_thandler.reset();
 
+				//从等待队列里移除，否则协程结束后，unlock()会访问已经失效的_root
+				if (mtx != nullptr)
+					mtx->remove_wait_list(this);
+
 				assert(this->_scheduler != nullptr);
 				if (this->_coro)
 					this->_scheduler->add_generator(this);
@@ -181,6 +186,14 @@ namespace librf
 
 			_wait_awakes.push_back(state);
 		}
+
+		LIBRF_API void mutex_v2_impl::remove_wait_list(state_mutex_t* state)
+		{
+			assert(state != nullptr);
+
+			scoped_lock<lock_type> lock_(_lock);
+			_wait_awakes.remove(state);
+		}
 	}
 
 	LIBRF_API mutex_t::mutex_t()
-- 
2.43.0


From 11615aa66e80a6bbfb26cd253a6a6ef63837ac3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:01 +0000
Subject: [PATCH 10/24] fix: mutex_t::try_lock_until(tp, unique_address) did
 not compile

---
 include/librf/src/mutex_v2.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/librf/src/mutex_v2.inl b/include/librf/src/mutex_v2.inl
index 40b63e0..e9329e7 100644
--- a/include/librf/src/mutex_v2.inl
+++ b/include/librf/src/mutex_v2.inl
@@ -430,7 +430,7 @@ namespace librf
 	inline bool mutex_t::try_lock_until(const std::chrono::time_point<_Rep, _Period>& tp, void* unique_address)
 	{
 		assert(unique_address != nullptr);
-		return _mutex->try_lock_until(std::chrono::time_point_cast<clock_type::time_point>(tp), unique_address);
+		return _mutex->try_lock_until(std::chrono::time_point_cast<clock_type::duration>(tp), unique_address);
 	}
 
 	inline void mutex_t::unlock(void* unique_address) const
-- 
2.43.0


From 76ff5de81864a27857754bacb3cfc028a4e92a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:01 +0000
Subject: [PATCH 11/24] fix: assigning to a batch_unlock_t that holds a lock
 never released that lock

---
 include/librf/src/mutex_v2.inl | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/include/librf/src/mutex_v2.inl b/include/librf/src/mutex_v2.inl
index e9329e7..7cadc3f 100644
--- a/include/librf/src/mutex_v2.inl
+++ b/include/librf/src/mutex_v2.inl
@@ -178,7 +178,17 @@ namespace librf
 		batch_unlock_t(const batch_unlock_t&) = delete;
 		batch_unlock_t& operator = (const batch_unlock_t&) = delete;
 		batch_unlock_t(batch_unlock_t&& _Right) = default;
-		batch_unlock_t& operator = (batch_unlock_t&& _Right) = default;
+		batch_unlock_t& operator = (batch_unlock_t&& _Right) noexcept
+		{
+			if (this != &_Right)
+			{
+				unlock();
+
+				_mutex = std::move(_Right._mutex);
+				_owner = _Right._owner;
+			}
+			return *this;
+		}
 	private:
 		mutex_impl_ptr _mutex;
 		void* _owner;
@@ -523,7 +533,17 @@ namespace librf
 		batch_unlock_t(const batch_unlock_t&) = delete;
 		batch_unlock_t& operator = (const batch_unlock_t&) = delete;
 		batch_unlock_t(batch_unlock_t&& _Right) = default;
-		batch_unlock_t& operator = (batch_unlock_t&& _Right) = default;
+		batch_unlock_t& operator = (batch_unlock_t&& _Right) noexcept
+		{
+			if (this != &_Right)
+			{
+				unlock();
+
+				_MAA = std::move(_Right._MAA);
+				_Right._MAA._owner = nullptr;
+			}
+			return *this;
+		}
 	};
 
 	template<class... _Mtxs>
-- 
2.43.0


From 1eb9110a0cab4d7887eb8bea2ecd812dc55f635d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:55 +0000
Subject: [PATCH 12/24] fix: a future that already has its result never ended
 once started with go

---
 include/librf/src/scheduler.h |  2 +-
 include/librf/src/state.h     |  3 +++
 source/scheduler.cpp          | 13 ++++++++++---
 source/state.cpp              | 11 +++++++++++
 4 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/include/librf/src/scheduler.h b/include/librf/src/scheduler.h
index 5b6e68a..804e121 100644
--- a/include/librf/src/scheduler.h
+++ b/include/librf/src/scheduler.h
@@ -62,7 +62,7 @@ namespace librf
 		 * go用于启动future_t<>/generator_t<>；\n
 		 * GO用于启动一个所有变量按值捕获的lambda。
 		 * @param coro 协程对象。future_t<>，generator_t<>，或者一个调用后返回future_t<>/generator_t<>的函数对象。
-		 * @retval task_t* 返回代表一个新协程的协程任务类。\n
+		 * @retval task_t* 返回代表一个新协程的协程任务类。如果启动的是一个已经有结果的future_t<>，则返回nullptr。\n
 		 */
 		template<class _Ty>
 		requires(traits::is_callable_v<_Ty> || traits::is_future_v<_Ty> || traits::is_generator_v<_Ty>)
diff --git a/include/librf/src/state.h b/include/librf/src/state.h
index 8353e72..abe575f 100644
--- a/include/librf/src/state.h
+++ b/include/librf/src/state.h
@@ -37,6 +37,8 @@ namespace librf
 		LIBRF_API virtual void resume();
 		LIBRF_API virtual bool has_handler() const  noexcept;
 		LIBRF_API virtual state_base_t* get_parent() const noexcept;
+		//已经有了结果(返回值或者异常)，无需再等待
+		LIBRF_API virtual bool is_finished() const noexcept;
 
 		virtual void set_scheduler(scheduler_t* sch) noexcept
 		{
@@ -137,6 +139,7 @@ namespace librf
 		LIBRF_API virtual void resume() override;
 		LIBRF_API virtual bool has_handler() const  noexcept override;
 		LIBRF_API virtual state_base_t* get_parent() const noexcept override;
+		LIBRF_API virtual bool is_finished() const noexcept override;
 		//另一个线程可能正在通过awaitable_t<>设置值，从而读取_scheduler
 		LIBRF_API virtual void set_scheduler(scheduler_t* sch) noexcept override;
 
diff --git a/source/scheduler.cpp b/source/scheduler.cpp
index c6232f1..7c02e35 100644
--- a/source/scheduler.cpp
+++ b/source/scheduler.cpp
@@ -94,20 +94,27 @@ namespace librf
 
 	LIBRF_API task_t* scheduler_t::new_task(task_t * task)
 	{
-		state_base_t* sptr = task->_state.get();
+		//加入到_ready_task后，task可能在另外一个线程里结束并销毁。故这里需要保证state有效
+		const state_sptr sptr = task->_state;
 		sptr->set_scheduler(this);
 
 		{
 #if !RESUMEF_DISABLE_MULT_THREAD
 			scoped_lock<spinlock> __guard(_lock_ready);
 #endif
-			_ready_task.emplace(sptr, task);
+			_ready_task.emplace(sptr.get(), task);
 		}
 
 		//如果是单独的future，没有被co_await过，则handler是nullptr。
 		if (sptr->has_handler())
 		{
-			add_generator(sptr);
+			add_generator(sptr.get());
+		}
+		else if (sptr->is_finished())
+		{
+			//单独的future，在加入之前就已经有结果了，以后不会再有谁来删除此task
+			del_final(sptr.get());
+			return nullptr;
 		}
 
 		return task;
diff --git a/source/state.cpp b/source/state.cpp
index 2d76853..89274e9 100644
--- a/source/state.cpp
+++ b/source/state.cpp
@@ -32,6 +32,11 @@ namespace librf
 		return nullptr;
 	}
 
+	LIBRF_API bool state_base_t::is_finished() const noexcept
+	{
+		return false;
+	}
+
 	LIBRF_API void state_future_t::destroy_deallocate()
 	{
 		size_t _Size = this->_alloc_size;
@@ -164,6 +169,12 @@ namespace librf
 		return has_handler_skip_lock();
 	}
 
+	LIBRF_API bool state_future_t::is_finished() const noexcept
+	{
+		scoped_lock<lock_type> __guard(this->_mtx);
+		return _has_value.load(std::memory_order_acquire) != result_type::None;
+	}
+
 	LIBRF_API void state_future_t::set_scheduler(scheduler_t* sch) noexcept
 	{
 		scoped_lock<lock_type> __guard(this->_mtx);
-- 
2.43.0


From 5fa349f02fb2924bcd10c2f21fbae1dc24741c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:00 +0000
Subject: [PATCH 13/24] fix: a finished task's function object was destroyed
 under the scheduler's lock

---
 include/librf/src/scheduler.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/librf/src/scheduler.h b/include/librf/src/scheduler.h
index 804e121..162caee 100644
--- a/include/librf/src/scheduler.h
+++ b/include/librf/src/scheduler.h
@@ -163,10 +163,8 @@ namespace librf
 
 	inline void scheduler_t::del_final(state_base_t* sptr)
 	{
-#if !RESUMEF_DISABLE_MULT_THREAD
-		scoped_lock<spinlock> __guard(_lock_ready);
-#endif
-		this->_ready_task.erase(sptr);
+		//task持有用户的函数对象，其析构函数可能会再次访问本调度器。故销毁task必须在释放_lock_ready之后
+		(void)del_switch(sptr);
 	}
 
 	inline void scheduler_t::add_switch(std::unique_ptr<task_t> task)
-- 
2.43.0


From 8b76fc490e458bdfa32d96b53d0abba0f1d41356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:11 +0000
Subject: [PATCH 14/24] fix: scheduler_t::empty() raced with the timers of the
 scheduler's thread

---
 include/librf/src/timer.h | 11 +++++------
 source/timer.cpp          |  3 +++
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/librf/src/timer.h b/include/librf/src/timer.h
index 8cb40dc..2bab515 100644
--- a/include/librf/src/timer.h
+++ b/include/librf/src/timer.h
@@ -123,10 +123,8 @@ namespace librf
 
 		inline bool empty() const
 		{
-#if !RESUMEF_DISABLE_MULT_THREAD
-			scoped_lock<spinlock> __lock(_added_mtx);
-#endif
-			return _runing_timers.empty() && _added_timers.empty();
+			//_runing_timers只能在调度器所在线程访问，而scheduler_t::empty()可能来自其他线程
+			return _count.load(std::memory_order_acquire) == 0;
 		}
 		LIBRF_API void clear();
 		LIBRF_API void update();
@@ -144,13 +142,14 @@ namespace librf
 		}
 	private:
 #if !RESUMEF_DISABLE_MULT_THREAD
-		mutable spinlock _added_mtx;
+		spinlock _added_mtx;
 #endif
+		std::atomic<size_t>	_count{0};		//_added_timers和_runing_timers里定时器的总数量
 		timer_vector_type	_added_timers;
 		timer_map_type		_runing_timers;
 
 		LIBRF_API timer_target_ptr add_(const timer_target_ptr & sptr);
-		LIBRF_API static void call_target_(const timer_target_ptr & sptr, bool canceld);
+		LIBRF_API void call_target_(const timer_target_ptr & sptr, bool canceld);
 #endif
 	};
 
diff --git a/source/timer.cpp b/source/timer.cpp
index 1c5adc1..a667ca4 100644
--- a/source/timer.cpp
+++ b/source/timer.cpp
@@ -14,6 +14,8 @@ namespace librf
 	
 	LIBRF_API void timer_manager::call_target_(const timer_target_ptr & sptr, bool canceld)
 	{
+		_count.fetch_sub(1, std::memory_order_acq_rel);
+
 		auto cb = std::move(sptr->cb);
 		sptr->st = timer_target::State::Invalid;
 #if _DEBUG
@@ -56,6 +58,7 @@ namespace librf
 
 		sptr->st = timer_target::State::Added;
 		_added_timers.push_back(sptr);
+		_count.fetch_add(1, std::memory_order_acq_rel);
 
 		return sptr;
 	}
-- 
2.43.0


From b65b37f6820acbb145e4fb8a464361d0800aa78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:38 +0000
Subject: [PATCH 15/24] fix: request_stop_all_if_possible() called stop and
 timer callbacks under the scheduler's lock

---
 source/scheduler.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/source/scheduler.cpp b/source/scheduler.cpp
index 7c02e35..e82d10b 100644
--- a/source/scheduler.cpp
+++ b/source/scheduler.cpp
@@ -140,10 +140,22 @@ namespace librf
 
 	LIBRF_API void scheduler_t::request_stop_all_if_possible()
 	{
-		scoped_lock<spinlock> __guard(_lock_ready);
+		//停止回调函数和定时器回调函数都可能会再次访问本调度器。故不能在持有_lock_ready的情况下调用它们
+		std::vector<stop_source> stops;
+		{
+#if !RESUMEF_DISABLE_MULT_THREAD
+			scoped_lock<spinlock> __guard(_lock_ready);
+#endif
+			stops.reserve(this->_ready_task.size());
+			for (auto& kv : this->_ready_task)
+			{
+				if (kv.second->_stop.stop_possible())
+					stops.push_back(kv.second->_stop);
+			}
+		}
 
-		for (auto& kv : this->_ready_task)
-			kv.second->request_stop_if_possible();
+		for (stop_source& stop : stops)
+			stop.request_stop();
 		//this->_ready_task.clear();
 		this->_timer->clear();
 	}
-- 
2.43.0


From e77629a0f8ce975f3240f446b0b0c16e49e42b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:39 +0000
Subject: [PATCH 16/24] fix: when_all/when_any on another scheduler could lose
 the wake-up of their waiter

---
 include/librf/src/when_v2.h | 18 +++++++++++++-----
 source/when_v2.cpp          | 11 ++++++++++-
 2 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/include/librf/src/when_v2.h b/include/librf/src/when_v2.h
index f0752df..399a01f 100644
--- a/include/librf/src/when_v2.h
+++ b/include/librf/src/when_v2.h
@@ -26,6 +26,8 @@ namespace librf
 
 			LIBRF_API virtual void resume() override;
 			LIBRF_API virtual bool has_handler() const  noexcept override;
+			//另一个线程可能正在on_notify_one()，从而读取_scheduler
+			LIBRF_API virtual void set_scheduler(scheduler_t* sch) noexcept override;
 
 			LIBRF_API void on_cancel() noexcept;
 			LIBRF_API bool on_notify_one();
@@ -33,16 +35,22 @@ namespace librf
 
 			//将自己加入到通知链表里
 			template<class _PromiseT> requires(traits::is_promise_v<_PromiseT>)
-			scheduler_t* on_await_suspend(coroutine_handle<_PromiseT> handler) noexcept
+			bool on_await_suspend(coroutine_handle<_PromiseT> handler) noexcept
 			{
 				_PromiseT& promise = handler.promise();
 				auto* parent_state = promise.get_state();
 				scheduler_t* sch = parent_state->get_scheduler();
 
+				scoped_lock<lock_type> lock_(_lock);
+
+				//在await_ready()之后，有可能已经在别的线程里完成了
+				if (_counter.load(std::memory_order_acquire) == 0)
+					return false;
+
 				this->_scheduler = sch;
 				this->_coro = handler;
 
-				return sch;
+				return true;
 			}
 
 			typedef spinlock lock_type;
@@ -70,13 +78,13 @@ namespace librf
 
 			bool await_ready() noexcept
 			{
-				return _state->_counter.load(std::memory_order_relaxed) == 0;
+				return _state->_counter.load(std::memory_order_acquire) == 0;
 			}
 
 			template<class _PromiseT> requires(traits::is_promise_v<_PromiseT>)
-			void await_suspend(coroutine_handle<_PromiseT> handler)
+			bool await_suspend(coroutine_handle<_PromiseT> handler)
 			{
-				_state->on_await_suspend(handler);
+				return _state->on_await_suspend(handler);
 			}
 
 			value_type await_resume() noexcept(std::is_nothrow_move_constructible_v<value_type>)
diff --git a/source/when_v2.cpp b/source/when_v2.cpp
index 00370a2..bd44f0e 100644
--- a/source/when_v2.cpp
+++ b/source/when_v2.cpp
@@ -25,6 +25,13 @@ namespace librf
 			return (bool)_coro;
 		}
 
+		LIBRF_API void state_when_t::set_scheduler(scheduler_t* sch) noexcept
+		{
+			scoped_lock<lock_type> lock_(_lock);
+
+			_scheduler = sch;
+		}
+
 		LIBRF_API void state_when_t::on_cancel() noexcept
 		{
 			scoped_lock<lock_type> lock_(_lock);
@@ -39,9 +46,11 @@ namespace librf
 
 			if (_counter.fetch_sub(1, std::memory_order_acq_rel) == 1)
 			{
-				assert(this->_scheduler != nullptr);
 				if (this->_coro)
+				{
+					assert(this->_scheduler != nullptr);
 					this->_scheduler->add_generator(this);
+				}
 
 				return true;
 			}
-- 
2.43.0


From 84ff3d7ded61b6616655da8dec8d55a73c1946f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:24 +0000
Subject: [PATCH 17/24] fix: when_all's tasks could use its state after the
 waiter had released it

---
 include/librf/src/when_v2.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/librf/src/when_v2.h b/include/librf/src/when_v2.h
index 399a01f..21f0c81 100644
--- a/include/librf/src/when_v2.h
+++ b/include/librf/src/when_v2.h
@@ -146,7 +146,7 @@ namespace librf
 		}
 
 		template<_WhenTaskT _Awaitable, class _Ty>
-		future_t<> when_all_connector_1(state_when_t* state, _Awaitable task, _Ty& value)
+		future_t<> when_all_connector_1(counted_ptr<state_when_t> state, _Awaitable task, _Ty& value)
 		{
 			decltype(auto) awaitor = when_real_awaitor(task);
 
@@ -161,7 +161,7 @@ namespace librf
 		using _FuckBoolVectorReference = typename std::vector<_FuckBoolean>::reference;
 
 		template<_WhenTaskT _Awaitable, class _Ty>
-		future_t<> when_all_connector_2(state_when_t* state,_Awaitable task, _FuckBoolVectorReference<_Ty> value)
+		future_t<> when_all_connector_2(counted_ptr<state_when_t> state, _Awaitable task, _FuckBoolVectorReference<_Ty> value)
 		{
 			auto&& awaitor = when_real_awaitor(task);
 
-- 
2.43.0


From 7aa406c49aa34a9e2fc6318b56f5bacb54b60a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:27 +0000
Subject: [PATCH 18/24] fix: when_all over vector<bool> lost results when its
 tasks moved to other schedulers

---
 include/librf/src/when_v2.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/librf/src/when_v2.h b/include/librf/src/when_v2.h
index 21f0c81..6856b41 100644
--- a/include/librf/src/when_v2.h
+++ b/include/librf/src/when_v2.h
@@ -167,6 +167,13 @@ namespace librf
 
 			if constexpr(std::is_same_v<_Ty, ignore_type>)
 				co_await awaitor;
+			else if constexpr(std::is_same_v<_Ty, bool>)
+			{
+				//std::vector<bool>的多个元素共享内存，而各个任务有可能切换到了不同的调度器
+				bool result = co_await awaitor;
+				scoped_lock<state_when_t::lock_type> lock_(state->_lock);
+				value = result;
+			}
 			else
 				value = co_await awaitor;
 			state->on_notify_one();
-- 
2.43.0


From 6ccccbf3d906f88a9b54b5758ea4279dea9414c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:31 +0000
Subject: [PATCH 19/24] fix: a stop_token's shared state was deleted while
 other tokens or sources still used it

---
 include/librf/src/stop_token.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/librf/src/stop_token.h b/include/librf/src/stop_token.h
index 9cef883..53a5978 100644
--- a/include/librf/src/stop_token.h
+++ b/include/librf/src/stop_token.h
@@ -46,7 +46,7 @@ struct stop_state
     static constexpr uint64_t kSourceRefIncrement = static_cast<uint64_t>(1u) << 33u;
 
     static constexpr uint64_t kZeroRef = kTokenRefIncrement + kSourceRefIncrement;
-    static constexpr uint64_t kLockedAndZeroRef = kZeroRef + kZeroRef;
+    static constexpr uint64_t kLastTokenRef = kTokenRefIncrement + kTokenRefIncrement;
     static constexpr uint64_t kLockAndStopedFlag = kStopRequestedFlag | kLockedFlag;
     static constexpr uint64_t kUnlockAndTokenRefIncrement = kLockedFlag - kTokenRefIncrement;
     static constexpr uint64_t klockAndTokenRefIncrement = kLockedFlag + kTokenRefIncrement;
@@ -123,7 +123,7 @@ struct stop_state
 
     void unlock_and_decrement_token_ref_count() noexcept
     {
-        if (state_.fetch_sub(klockAndTokenRefIncrement, std::memory_order_acq_rel) < kLockedAndZeroRef)
+        if (state_.fetch_sub(klockAndTokenRefIncrement, std::memory_order_acq_rel) < kLastTokenRef)
         {
             delete this;
         }
@@ -138,7 +138,7 @@ public:
     void remove_token_reference() noexcept
     {
         auto old_state = state_.fetch_sub(kTokenRefIncrement, std::memory_order_acq_rel);
-        if (old_state < kZeroRef)
+        if (old_state < kLastTokenRef)
         {
             delete this;
         }
-- 
2.43.0


From b45106d7f91204f6045332774a9e2d4532048fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:42 +0000
Subject: [PATCH 20/24] fix: concurrent first uses of a task's stop source
 raced

---
 include/librf/src/stop_token.h | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/include/librf/src/stop_token.h b/include/librf/src/stop_token.h
index 53a5978..9c9a5e2 100644
--- a/include/librf/src/stop_token.h
+++ b/include/librf/src/stop_token.h
@@ -395,6 +395,12 @@ class stop_source
 private:
     details::stop_state* state_;
 
+    //make_sure_possible()有可能在其他线程里设置state_
+    details::stop_state* load_state() const noexcept
+    {
+        return reinterpret_cast<const std::atomic<details::stop_state*>*>(&state_)->load(std::memory_order_acquire);
+    }
+
 public:
     stop_source()
         : state_(new details::stop_state())
@@ -415,7 +421,7 @@ public:
     }
 
     stop_source(const stop_source& other) noexcept
-        : state_(other.state_)
+        : state_(other.load_state())
     {
         if (state_)
         {
@@ -437,7 +443,7 @@ public:
 
     stop_source& operator=(const stop_source& other) noexcept
     {
-        if (state_ != other.state_)
+        if (state_ != other.load_state())
         {
             stop_source tmp{other};
             swap(tmp);
@@ -448,18 +454,19 @@ public:
     [[nodiscard]]
     bool stop_requested() const noexcept
     {
-        return state_ && state_->is_stop_requested();
+        details::stop_state* st = load_state();
+        return st && st->is_stop_requested();
     }
 
     [[nodiscard]]
     bool stop_possible() const noexcept
     {
-        return state_ != nullptr;
+        return load_state() != nullptr;
     }
 
 	void make_sure_possible()
 	{
-        if (state_ == nullptr)
+        if (load_state() == nullptr)
         {
             details::stop_state* st = new details::stop_state();
             details::stop_state* tmp = nullptr;
@@ -477,9 +484,10 @@ public:
 
     bool request_stop() const noexcept
     {
-        if (state_)
+        details::stop_state* st = load_state();
+        if (st)
         {
-            return state_->request_stop();
+            return st->request_stop();
         }
         return false;
     }
@@ -487,7 +495,7 @@ public:
     [[nodiscard]]
     stop_token get_token() const noexcept
     {
-        return stop_token{state_};
+        return stop_token{load_state()};
     }
 
     void swap(stop_source& other) noexcept
-- 
2.43.0


From bae3d9f41bf1ee1e7caee9d6cc4f516f391596b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:57 +0000
Subject: [PATCH 21/24] fix: a channel was freed while its lock was still held
 by its last user

---
 include/librf/src/channel_v2.inl | 36 +++++++++++++-------------------
 1 file changed, 14 insertions(+), 22 deletions(-)

diff --git a/include/librf/src/channel_v2.inl b/include/librf/src/channel_v2.inl
index 42cc56e..c6f3d1e 100644
--- a/include/librf/src/channel_v2.inl
+++ b/include/librf/src/channel_v2.inl
@@ -359,9 +359,7 @@ namespace detail
 			//在多线程竞争较为多的时候，先检查是否可用，可以稍微提高点效率
 			if constexpr (optimization_for_multithreading)
 			{
-				scoped_lock<lock_type> lock_(_channel->_lock);
-
-				if (_channel->try_read_nolock(_value))
+				if (_channel->try_read(_value))
 				{
 					_channel = nullptr;
 					return true;
@@ -373,18 +371,16 @@ namespace detail
 		template<class _PromiseT> requires(traits::is_promise_v<_PromiseT>)
 		bool await_suspend(coroutine_handle<_PromiseT> handler)
 		{
-			scoped_lock<lock_type> lock_(_channel->_lock);
+			//有可能持有channel的最后一个引用，故必须在解锁之后才能释放
+			std::shared_ptr<channel_type> channel_ = std::move(_channel);
+			scoped_lock<lock_type> lock_(channel_->_lock);
 
-			if (_channel->try_read_nolock(_value))
-			{
-				_channel = nullptr;
+			if (channel_->try_read_nolock(_value))
 				return false;
-			}
 
-			_state = new state_type(_channel, _value);
+			_state = new state_type(channel_, _value);
 			_state->on_await_suspend(handler);
-			_channel->add_read_list_nolock(_state.get());
-			_channel = nullptr;
+			channel_->add_read_list_nolock(_state.get());
 
 			return true;
 		}
@@ -430,9 +426,7 @@ namespace detail
 			//在多线程竞争较为多的时候，先检查是否可用，可以稍微提高点效率
 			if constexpr (optimization_for_multithreading)
 			{
-				scoped_lock<lock_type> lock_(_channel->_lock);
-
-				if (_channel->try_write_nolock(_value))
+				if (_channel->try_write(_value))
 				{
 					_channel = nullptr;
 					return true;
@@ -444,18 +438,16 @@ namespace detail
 		template<class _PromiseT> requires(traits::is_promise_v<_PromiseT>)
 		bool await_suspend(coroutine_handle<_PromiseT> handler)
 		{
-			scoped_lock<lock_type> lock_(_channel->_lock);
+			//有可能持有channel的最后一个引用，故必须在解锁之后才能释放
+			std::shared_ptr<channel_type> channel_ = std::move(_channel);
+			scoped_lock<lock_type> lock_(channel_->_lock);
 
-			if (_channel->try_write_nolock(_value))
-			{
-				_channel = nullptr;
+			if (channel_->try_write_nolock(_value))
 				return false;
-			}
 
-			_state = new state_type(_channel, _value);
+			_state = new state_type(channel_, _value);
 			_state->on_await_suspend(handler);
-			_channel->add_write_list_nolock(_state.get());
-			_channel = nullptr;
+			channel_->add_write_list_nolock(_state.get());
 
 			return true;
 		}
-- 
2.43.0


From b7e64defee429531b4972a78f251fb18e2e87974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:47 +0000
Subject: [PATCH 22/24] fix: a timed mutex waiter could outlive the mutex_t it
 waits for

---
 include/librf/src/mutex_v2.inl | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/librf/src/mutex_v2.inl b/include/librf/src/mutex_v2.inl
index 7cadc3f..5d19c97 100644
--- a/include/librf/src/mutex_v2.inl
+++ b/include/librf/src/mutex_v2.inl
@@ -198,6 +198,7 @@ namespace librf
 	{
 		lock_awaiter(detail::mutex_v2_impl* mtx) noexcept
 			: _mutex(mtx)
+			, _holder(mtx->shared_from_this())
 		{
 			assert(_mutex != nullptr);
 		}
@@ -242,6 +243,7 @@ namespace librf
 		}
 	protected:
 		detail::mutex_v2_impl* _mutex;
+		mutex_impl_ptr _holder;						//等待期间，即使mutex_t提前销毁，超时的时候也要访问内部的实现
 		counted_ptr<detail::state_mutex_t> _state;
 		state_base_t* _root = nullptr;
 	};
-- 
2.43.0


From 5f7eec607d46c5b61ca0f68e69c03c5bc850d5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:55 +0000
Subject: [PATCH 23/24] fix: generator_t move assignment releases the coroutine
 it held

---
 include/librf/src/generator.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/librf/src/generator.h b/include/librf/src/generator.h
index 74f1a86..20269e8 100644
--- a/include/librf/src/generator.h
+++ b/include/librf/src/generator.h
@@ -256,6 +256,8 @@ namespace librf
 		generator_t& operator=(generator_t&& right_) noexcept
 		{
 			if (this != std::addressof(right_)) {
+				if (_Coro)
+					_Coro.destroy();
 				_Coro = right_._Coro;
 				right_._Coro = nullptr;
 			}
-- 
2.43.0


From 2469964d99e0011225d2e8ec204d03ba74dbe9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:00 +0000
Subject: [PATCH 24/24] fix: when_any moved the result out of the object a task
 returned a reference to

---
 include/librf/src/when_v2.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/librf/src/when_v2.h b/include/librf/src/when_v2.h
index 6856b41..f015c8d 100644
--- a/include/librf/src/when_v2.h
+++ b/include/librf/src/when_v2.h
@@ -232,7 +232,7 @@ namespace librf
 				intptr_t oldValue = -1;
 				if (reinterpret_cast<std::atomic<intptr_t>&>(value->first).compare_exchange_strong(oldValue, idx))
 				{
-					value->second = std::move(result);
+					value->second = std::forward<decltype(result)>(result);
 
 					state->on_notify_one();
 				}
-- 
2.43.0

