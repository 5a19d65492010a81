From 85ef5e1f61654495f59933e0d1fd8eade59d472d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:48 +0000
Subject: [PATCH 01/48] fix: copies of a ring buffer keep the elements of the
 source

The range constructor and the copy assignment set the tail but not the
size, so every copy looked empty; the assignment also returned nothing.
---
 cxxmetrics/ringbuf.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cxxmetrics/ringbuf.hpp b/cxxmetrics/ringbuf.hpp
index a954d79..b53fcab 100644
--- a/cxxmetrics/ringbuf.hpp
+++ b/cxxmetrics/ringbuf.hpp
@@ -195,6 +195,7 @@ ringbuf<TElemType, TSize>::ringbuf(TInputIterator start, const TInputIterator &e
         data_[i] = *start;
 
     tail_ = i;
+    size_ = i;
 }
 
 
@@ -216,6 +217,8 @@ ringbuf<TElemType, TSize> &ringbuf<TElemType, TSize>::operator=(const ringbuf &o
         data_[i] = *it;
 
     tail_ = i;
+    size_ = i;
+    return *this;
 }
 
 template<typename TElemType, size_t TSize>
-- 
2.43.0


From c27f2ae653f4a275eed00e131a6b1addf1e7c605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:48 +0000
Subject: [PATCH 02/48] fix: sliding_window_reservoir assignment returns the
 reservoir

---
 cxxmetrics/sliding_window.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cxxmetrics/sliding_window.hpp b/cxxmetrics/sliding_window.hpp
index daf46f1..b10c5e0 100644
--- a/cxxmetrics/sliding_window.hpp
+++ b/cxxmetrics/sliding_window.hpp
@@ -250,6 +250,7 @@ sliding_window_reservoir<TElem, TMaxSize, TClockGet>::operator=(const sliding_wi
     data_ = other.data_;
     clock_ = other.clock_;
     window_ = other.window_;
+    return *this;
 }
 
 template<typename TElem, size_t TMaxSize, typename TClockGet>
-- 
2.43.0


From 7e16d469ab2edb3ae0ea862ac0208ff6426eb13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:48 +0000
Subject: [PATCH 03/48] fix: uniform_reservoir no longer samples one past the
 end of its storage

---
 cxxmetrics/uniform_reservoir.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cxxmetrics/uniform_reservoir.hpp b/cxxmetrics/uniform_reservoir.hpp
index fda6148..8ab55c5 100644
--- a/cxxmetrics/uniform_reservoir.hpp
+++ b/cxxmetrics/uniform_reservoir.hpp
@@ -110,7 +110,7 @@ void uniform_reservoir<TElem, TSize>::update(const TElem &value) noexcept
     // so we don't run out of count
     count_.store(TSize);
 
-    std::uniform_int_distribution<> d(0, TSize);
+    std::uniform_int_distribution<std::size_t> d(0, TSize - 1);
     elems_[d(gen_)] = value;
 }
 
-- 
2.43.0


From 9b5e711a06c651f6a431bb160203f20b65381ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:48 +0000
Subject: [PATCH 04/48] fix: uniform_reservoir copies stay within the sample
 storage

The count is transiently larger than the storage while updates run, and
the assignment operator did not compile.
---
 cxxmetrics/uniform_reservoir.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/cxxmetrics/uniform_reservoir.hpp b/cxxmetrics/uniform_reservoir.hpp
index 8ab55c5..281017b 100644
--- a/cxxmetrics/uniform_reservoir.hpp
+++ b/cxxmetrics/uniform_reservoir.hpp
@@ -82,7 +82,7 @@ uniform_reservoir<TElem, TSize>::uniform_reservoir() noexcept :
 template<typename TElem, std::size_t TSize>
 uniform_reservoir<TElem, TSize>::uniform_reservoir(const uniform_reservoir &other) noexcept :
         gen_(generate_seed()),
-        count_(other.count_.load())
+        count_(std::min(other.count_.load(), static_cast<decltype(count_.load())>(TSize)))
 {
     for (std::size_t i = 0; i < count_; i++)
         elems_[i] = other.elems_[i];
@@ -91,8 +91,11 @@ uniform_reservoir<TElem, TSize>::uniform_reservoir(const uniform_reservoir &othe
 template<typename TElem, std::size_t TSize>
 uniform_reservoir<TElem, TSize> &uniform_reservoir<TElem, TSize>::operator=(const uniform_reservoir &other) noexcept
 {
-    elems_ = other.elems_;
-    count_ = other.count_;
+    const auto count = std::min(other.count_.load(), static_cast<decltype(count_.load())>(TSize));
+    for (std::size_t i = 0; i < count; i++)
+        elems_[i] = other.elems_[i];
+
+    count_ = count;
     return *this;
 }
 
-- 
2.43.0


From 6755ae62dbfcac8bda504c9604050502464299a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:48 +0000
Subject: [PATCH 05/48] fix: value_snapshot inequality is the negation of
 equality

---
 cxxmetrics/snapshots.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cxxmetrics/snapshots.hpp b/cxxmetrics/snapshots.hpp
index 89eca9e..3fc081f 100644
--- a/cxxmetrics/snapshots.hpp
+++ b/cxxmetrics/snapshots.hpp
@@ -67,12 +67,12 @@ inline bool value_snapshot::operator==(const metric_value &value) const noexcept
 
 inline bool value_snapshot::operator!=(const value_snapshot &other) const noexcept
 {
-    return value_ == other.value_;
+    return value_ != other.value_;
 }
 
 inline bool value_snapshot::operator!=(const metric_value &value) const noexcept
 {
-    return value_ == value;
+    return value_ != value;
 }
 
 class cumulative_value_snapshot : public value_snapshot
-- 
2.43.0


From 60e3752e9e7fb58433fb826c7b367211814f8f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:48 +0000
Subject: [PATCH 06/48] fix: integral metric values compare without overflowing

The difference was truncated to int, so values that differ by more than
an int can hold compared equal or in the wrong order.
---
 cxxmetrics/metric_value.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cxxmetrics/metric_value.hpp b/cxxmetrics/metric_value.hpp
index 55271e1..c7dbdfd 100644
--- a/cxxmetrics/metric_value.hpp
+++ b/cxxmetrics/metric_value.hpp
@@ -155,7 +155,7 @@ public:
             return val_ < fv ? -1 : val_ == fv ? 0 : 1;
         }
 
-        return val_ - lv;
+        return val_ < lv ? -1 : val_ == lv ? 0 : 1;
     }
 };
 
-- 
2.43.0


From 31f1210b4430db3324f78302a566fd2565ab50d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:48 +0000
Subject: [PATCH 07/48] fix: metric value division keeps its operand order

When the divisor had the wider type the operands were swapped, so
10 / 4.0 was 0.4. The result still has the wider type.
---
 cxxmetrics/metric_value.hpp | 72 ++++++++++++++++++++++++++++++++++++-
 1 file changed, 71 insertions(+), 1 deletion(-)

diff --git a/cxxmetrics/metric_value.hpp b/cxxmetrics/metric_value.hpp
index c7dbdfd..05aea6c 100644
--- a/cxxmetrics/metric_value.hpp
+++ b/cxxmetrics/metric_value.hpp
@@ -28,6 +28,8 @@ public:
     virtual void add(const variant_data& other) noexcept = 0;
     virtual void multiply(const variant_data& other) noexcept = 0;
     virtual void divide(const variant_data& other) noexcept = 0;
+    // replaces the value with numerator / value, keeping the type of the value
+    virtual void divide_into(const variant_data& numerator) noexcept = 0;
     virtual void negate() noexcept = 0;
     virtual void bitwise_negate() noexcept = 0;
     virtual int compare(const variant_data& other) const noexcept = 0;
@@ -132,6 +134,24 @@ public:
         }
     }
 
+    void divide_into(const variant_data& numerator) noexcept override
+    {
+        integral_variant_data<T> divisor(val_);
+        bool valid;
+        auto lv = numerator.to_integral(&valid);
+        if (valid)
+            val_ = static_cast<T>(lv);
+        else
+        {
+            auto fv = numerator.to_float(&valid);
+            if (!valid)
+                return;
+            val_ = static_cast<T>(fv);
+        }
+
+        divide(divisor);
+    }
+
     void negate() noexcept override
     {
         val_ = -val_;
@@ -236,6 +256,19 @@ public:
         }
     }
 
+    void divide_into(const variant_data& numerator) noexcept override
+    {
+        bool valid;
+        auto fv = numerator.to_float(&valid);
+        if (valid)
+        {
+            if (!val_)
+                val_ = 0;
+            else
+                val_ = fv / val_;
+        }
+    }
+
     void negate() noexcept override
     {
         val_ = -val_;
@@ -369,6 +402,10 @@ public:
     {
     }
 
+    void divide_into(const variant_data& numerator) noexcept override
+    {
+    }
+
     void negate() noexcept override
     {
         bool valid;
@@ -500,6 +537,30 @@ public:
             dur_ /= lv;
     }
 
+    void divide_into(const variant_data& numerator) noexcept override
+    {
+        bool valid;
+        auto lv = numerator.to_integral(&valid);
+        if (!valid)
+        {
+            auto fv = numerator.to_float(&valid);
+            if (!valid)
+                return;
+
+            if (!dur_.count())
+                dur_ = dur_.zero();
+            else
+                dur_ = std::chrono::duration<TRep, TPeriod>(static_cast<TRep>(fv / dur_.count()));
+
+            return;
+        }
+
+        if (!dur_.count())
+            dur_ = dur_.zero();
+        else
+            dur_ = std::chrono::duration<TRep, TPeriod>(static_cast<TRep>(lv / dur_.count()));
+    }
+
     void negate() noexcept override
     {
         dur_ = -dur_;
@@ -567,6 +628,15 @@ class variant_data_holder
         return result;
     }
 
+    // other / this, in the type of this
+    variant_data_holder uc_rdiv(const variant_data_holder& numerator) const
+    {
+        variant_data_holder result(as<variant_data>());
+        result.as<variant_data>()->divide_into(*numerator.as<variant_data>());
+
+        return result;
+    }
+
     template<typename T, typename>
     struct float_int_initializer;
 
@@ -692,7 +762,7 @@ public:
     variant_data_holder divide(const variant_data_holder& other) const
     {
         if (other.as<variant_data>()->type_score() > as<variant_data>()->type_score())
-            return other.uc_div(*this);
+            return other.uc_rdiv(*this);
         return uc_div(other);
     }
 
-- 
2.43.0


From 2fa3c2a5d27a77adeaa0589ee7702461ef1dc127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:48 +0000
Subject: [PATCH 08/48] fix: dividing the smallest integral metric value by -1
 does not trap

---
 cxxmetrics/metric_value.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cxxmetrics/metric_value.hpp b/cxxmetrics/metric_value.hpp
index 05aea6c..2c49e09 100644
--- a/cxxmetrics/metric_value.hpp
+++ b/cxxmetrics/metric_value.hpp
@@ -118,6 +118,8 @@ public:
         {
             if (!lv)
                 val_ = 0;
+            else if (lv == -1) // the smallest value can't be divided by -1, so negate with wrap around
+                val_ = static_cast<T>(~static_cast<unsigned long long>(val_) + 1);
             else
                 val_ /= lv;
         }
-- 
2.43.0


From b1f0aeaed1662e281f7f4e81fad9701d39acce37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:48 +0000
Subject: [PATCH 09/48] fix: metric values that are not numbers are ignored
 when they are added

Adding used the result of a failed conversion (NaN converted to an
integer), where multiplying and dividing ignore such an operand. The
conversion of a string to nanoseconds never said whether it had worked.
---
 cxxmetrics/metric_value.hpp | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/cxxmetrics/metric_value.hpp b/cxxmetrics/metric_value.hpp
index 2c49e09..8c49104 100644
--- a/cxxmetrics/metric_value.hpp
+++ b/cxxmetrics/metric_value.hpp
@@ -91,7 +91,11 @@ public:
         if (valid)
             val_ += lv;
         else
-            val_ += other.to_float(nullptr);
+        {
+            auto fv = other.to_float(&valid);
+            if (valid)
+                val_ += fv;
+        }
     }
 
     void multiply(const variant_data& other) noexcept override
@@ -234,7 +238,10 @@ public:
 
     void add(const variant_data& other) noexcept override
     {
-        val_ += other.to_float(nullptr);
+        bool valid;
+        auto fv = other.to_float(&valid);
+        if (valid)
+            val_ += fv;
     }
 
     void multiply(const variant_data& other) noexcept override
@@ -365,10 +372,18 @@ public:
     {
         bool lvalid;
         auto lv = to_integral(&lvalid);
+        if (valid)
+            *valid = true;
         if (lvalid)
             return std::chrono::nanoseconds(lv);
 
-        return std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::duration<long double, std::chrono::nanoseconds::period>(to_float(nullptr)));
+        auto fv = to_float(&lvalid);
+        if (valid)
+            *valid = lvalid;
+        if (!lvalid)
+            return std::chrono::nanoseconds(0);
+
+        return std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::duration<long double, std::chrono::nanoseconds::period>(fv));
     }
 
     std::size_t hash_value() const override
@@ -495,7 +510,10 @@ public:
 
     void add(const variant_data& other) noexcept override
     {
-        dur_ += std::chrono::duration_cast<std::chrono::duration<TRep, TPeriod>>(other.to_nanos(nullptr));
+        bool valid;
+        auto n = other.to_nanos(&valid);
+        if (valid)
+            dur_ += std::chrono::duration_cast<std::chrono::duration<TRep, TPeriod>>(n);
     }
 
     void multiply(const variant_data& other) noexcept override
@@ -576,6 +594,9 @@ public:
     {
         bool valid;
         auto n = other.to_nanos(&valid);
+        if (!valid)
+            return -1;
+
         return dur_ < n ? -1 : dur_ == n ? 0 : 1;
     }
 };
-- 
2.43.0


From f17c7bb98cab7cd9ef23a3a3a0047b716d4d985b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:48 +0000
Subject: [PATCH 10/48] fix: converting string metric values does not write a
 shared static

---
 cxxmetrics/metric_value.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cxxmetrics/metric_value.hpp b/cxxmetrics/metric_value.hpp
index 8c49104..c1ec1ab 100644
--- a/cxxmetrics/metric_value.hpp
+++ b/cxxmetrics/metric_value.hpp
@@ -313,7 +313,7 @@ public:
 
     long long to_integral(bool* valid) const override
     {
-        static bool ign;
+        bool ign;
         if (valid == nullptr)
             valid = &ign;
         if (!val_.length())
@@ -348,7 +348,7 @@ public:
 
     long double to_float(bool *valid) const override
     {
-        static bool ign;
+        bool ign;
         if (valid == nullptr)
             valid = &ign;
         if (!val_.length())
-- 
2.43.0


From e2ef7cc3562658c8e88ed5030619ae8c89adf85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:48 +0000
Subject: [PATCH 11/48] fix: equal tag collections have equal hashes

The hash depended on the iteration order of the unordered map, so equal
tag sets could end up with separate metrics in the registry.
---
 cxxmetrics/tag_collection.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cxxmetrics/tag_collection.hpp b/cxxmetrics/tag_collection.hpp
index bc5f4ce..7abdbda 100644
--- a/cxxmetrics/tag_collection.hpp
+++ b/cxxmetrics/tag_collection.hpp
@@ -69,8 +69,9 @@ struct hash<cxxmetrics::tag_collection>
         std::size_t result = 0;
         std::hash<std::string> h;
         std::hash<cxxmetrics::metric_value> v;
+        // equal collections may be iterated in different orders, so the combination has to be commutative
         for (const auto& p : collection)
-            result = (result * 397) ^ (h(p.first) ^ v(p.second));
+            result += (h(p.first) * 397) ^ v(p.second);
 
         return result;
     }
-- 
2.43.0


From b5bdc13c772d7943c552783c1da63d04352a1b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:29 +0000
Subject: [PATCH 12/48] fix: integral metric values of different widths compare
 by value

The other value was narrowed to the type of this one first, so that
2^32 compared equal to the int 0.
---
 cxxmetrics/metric_value.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cxxmetrics/metric_value.hpp b/cxxmetrics/metric_value.hpp
index c1ec1ab..0c5c338 100644
--- a/cxxmetrics/metric_value.hpp
+++ b/cxxmetrics/metric_value.hpp
@@ -171,7 +171,9 @@ public:
     int compare(const variant_data& other) const noexcept override
     {
         bool valid;
-        auto lv = static_cast<T>(other.to_integral(&valid));
+        // only the widest unsigned type has values that don't fit a long long
+        using common = typename std::conditional<std::is_unsigned<T>::value && sizeof(T) == sizeof(long long), T, long long>::type;
+        auto lv = static_cast<common>(other.to_integral(&valid));
         if (!valid)
         {
             auto fv = other.to_float(&valid);
@@ -181,7 +183,8 @@ public:
             return val_ < fv ? -1 : val_ == fv ? 0 : 1;
         }
 
-        return val_ < lv ? -1 : val_ == lv ? 0 : 1;
+        auto v = static_cast<common>(val_);
+        return v < lv ? -1 : v == lv ? 0 : 1;
     }
 };
 
-- 
2.43.0


From 78ce00f7dd6ddfc447d8b608ad602066086b88a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:29 +0000
Subject: [PATCH 13/48] fix: merging histogram snapshots keeps the values of
 both sides

The alternating iterator skipped every value that was not above the
smallest value of the other side, dropped duplicates and produced a
zero that was never sampled when one of the sides was empty.
---
 cxxmetrics/snapshots.hpp | 119 ++-------------------------------------
 1 file changed, 5 insertions(+), 114 deletions(-)

diff --git a/cxxmetrics/snapshots.hpp b/cxxmetrics/snapshots.hpp
index 3fc081f..268094f 100644
--- a/cxxmetrics/snapshots.hpp
+++ b/cxxmetrics/snapshots.hpp
@@ -426,118 +426,6 @@ class histogram_snapshot : public reservoir_snapshot
 {
     uint64_t count_;
 
-    template<typename TContainer1, typename TContainer2>
-    class alternating_iterator : public std::iterator<std::forward_iterator_tag, metric_value>
-    {
-        using iterator1 = typename TContainer1::const_iterator;
-        using iterator2 = typename TContainer2::const_iterator;
-
-        const TContainer1& srca_;
-        const TContainer2& srcb_;
-
-        iterator1 a_;
-        iterator2 b_;
-
-        bool ata_;
-
-        metric_value current_;
-        void set_current()
-        {
-            if ((ata_ || b_ == srcb_.end()) && a_ != srca_.end())
-                current_ = metric_value(*a_);
-            else if (b_ != srcb_.end())
-                current_ = metric_value(*b_);
-        }
-    public:
-
-        alternating_iterator(const TContainer1& first, const TContainer2& second, iterator1&& a, iterator2&& b) :
-                srca_(first),
-                srcb_(second),
-                a_(std::forward<iterator1>(a)),
-                b_(std::forward<iterator2>(b)),
-                ata_(false),
-                current_(0)
-        {
-            if (a_ != srca_.end() && b_ != srcb_.end())
-                set_current();
-        }
-        alternating_iterator(const TContainer1& first, const TContainer2& second) :
-                alternating_iterator(first, second, first.begin(), second.begin())
-        { }
-
-        alternating_iterator begin() const
-        {
-            return alternating_iterator(srca_, srcb_);
-        }
-
-        alternating_iterator end()
-        {
-            return alternating_iterator(srca_, srcb_, srca_.end(), srcb_.end());
-        }
-
-        alternating_iterator& operator++()
-        {
-            if (a_ == srca_.end() && b_ == srcb_.end())
-                return *this;
-
-            ata_ = !ata_;
-            if (ata_ && a_ != srca_.end())
-            {
-                while (a_ != srca_.end() && *a_ <= current_)
-                    ++a_;
-
-                if (a_ == srca_.end() && b_ != srcb_.end())
-                    ++b_;
-            }
-            else
-            {
-                while (b_ != srcb_.end() && *b_ <= current_)
-                    ++b_;
-
-                if (b_ == srcb_.end() && a_ != srca_.end())
-                    ++a_;
-            }
-
-            if (a_ == srca_.end() && b_ == srcb_.end())
-                return *this;
-
-            set_current();
-            return *this;
-        }
-
-        void operator++(int)
-        {
-            this->operator++();
-        }
-
-        const metric_value* operator->() const
-        {
-            return &current_;
-        }
-
-        const metric_value& operator*() const
-        {
-            return current_;
-        }
-
-        bool operator==(const alternating_iterator& other) const
-        {
-            if (a_ == srca_.end() && b_ == srcb_.end())
-                return other.a_ == other.srca_.end() && other.b_ == other.srcb_.end();
-            return a_ == other.a_ && b_ == other.b_;
-        }
-
-        bool operator!=(const alternating_iterator& other) const
-        {
-            return !operator==(other);
-        }
-    };
-
-    template<typename TContainer1, typename TContainer2>
-    static constexpr alternating_iterator<TContainer1, TContainer2> make_alternating_iterator(const TContainer1& a, const TContainer2& b)
-    {
-        return alternating_iterator<TContainer1, TContainer2>(a, b);
-    }
 public:
     histogram_snapshot(reservoir_snapshot&& q, uint64_t count) :
             reservoir_snapshot(std::move(q)),
@@ -558,8 +446,11 @@ public:
 
     void merge(const histogram_snapshot& other)
     {
-        auto b = make_alternating_iterator(values_, other.values_);
-        reservoir_snapshot::operator=(reservoir_snapshot(b, b.end(), std::max(count_, other.count_)));
+        values_.reserve(values_.size() + other.values_.size());
+        for (std::size_t i = 0, n = other.values_.size(); i < n; ++i)
+            values_.emplace_back(other.values_[i]);
+
+        std::sort(values_.begin(), values_.end());
         count_ += other.count_;
     }
 
-- 
2.43.0


From edd27167f85c076a4e6832f08f87b97c19ef8e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:29 +0000
Subject: [PATCH 14/48] fix: sampling a snapshot of a single value does not
 divide by zero

The infinite position was converted to an index, which is undefined.
---
 cxxmetrics/snapshots.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cxxmetrics/snapshots.hpp b/cxxmetrics/snapshots.hpp
index 268094f..ceb43fc 100644
--- a/cxxmetrics/snapshots.hpp
+++ b/cxxmetrics/snapshots.hpp
@@ -303,9 +303,12 @@ public:
     template <typename Handler>
     void sample(std::size_t max_to_visit, Handler hnd) const
     {
+        if (values_.empty())
+            return;
+
         long double q_proportion = 1.0L / std::min(
             static_cast<long double>(max_to_visit + 1),
-            static_cast<long double>(values_.size() - 1));
+            static_cast<long double>(std::max(values_.size() - 1, std::size_t(1))));
 
         for (std::size_t i = 0; i < max_to_visit; i++) {
             long double q = q_proportion * (i + 1);
-- 
2.43.0


From 227c5f3a540514428cf9753fe7967ea4304bfa48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:29 +0000
Subject: [PATCH 15/48] fix: assigning timer publish options keeps the rates
 flag

---
 cxxmetrics/publisher.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cxxmetrics/publisher.hpp b/cxxmetrics/publisher.hpp
index 0cc6918..872d32f 100644
--- a/cxxmetrics/publisher.hpp
+++ b/cxxmetrics/publisher.hpp
@@ -317,6 +317,7 @@ public:
     {
         histogram_publish_options::operator=(std::move(other));
         meter_publish_options::operator=(std::move(other));
+        rates_ = other.rates_;
         return *this;
     }
 
-- 
2.43.0


From 00b7971d0ba002d48f275689b667b84e4f311efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:29 +0000
Subject: [PATCH 16/48] fix: timer publish options keep their scale and their
 quantiles

The scale lives in a virtual base, which the most derived class has to
initialize; the constructors that take quantiles did not compile.
---
 cxxmetrics/publisher.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/cxxmetrics/publisher.hpp b/cxxmetrics/publisher.hpp
index 872d32f..f7de02e 100644
--- a/cxxmetrics/publisher.hpp
+++ b/cxxmetrics/publisher.hpp
@@ -275,24 +275,28 @@ class timer_publish_options : public histogram_publish_options, public meter_pub
     bool rates_;
 public:
     timer_publish_options(timer_publish_options&& other) noexcept :
+            value_publish_options(other),
             histogram_publish_options(std::move(other)),
             meter_publish_options(std::move(other)),
             rates_(other.rates_)
     { }
 
     timer_publish_options(bool rates = true, const scale_factor& sf = scale_factor()) noexcept :
+            value_publish_options(sf),
             histogram_publish_options(sf),
             meter_publish_options(sf),
             rates_(rates)
     { }
 
     timer_publish_options(bool rates, bool publish_count, const scale_factor& sf = scale_factor()) noexcept :
+            value_publish_options(sf),
             histogram_publish_options(publish_count, sf),
             meter_publish_options(sf),
             rates_(rates)
     { }
 
     timer_publish_options(bool rates, bool publish_count, bool publish_mean, const scale_factor& sf = scale_factor()) noexcept :
+            value_publish_options(sf),
             histogram_publish_options(publish_count, sf),
             meter_publish_options(publish_mean, sf),
             rates_(rates)
@@ -300,7 +304,8 @@ public:
 
     template<typename TQuantileOptions, typename = typename std::enable_if<std::is_base_of<basic_quantile_options, TQuantileOptions>::value, void>::type>
     timer_publish_options(TQuantileOptions&& quantile_options, bool rates, bool publish_count = true, const scale_factor& sf = scale_factor()) :
-            histogram_publish_options(quantile_options, publish_count, sf),
+            value_publish_options(sf),
+            histogram_publish_options(std::forward<TQuantileOptions>(quantile_options), publish_count, false, sf),
             meter_publish_options(sf),
             rates_(rates)
     { }
@@ -308,7 +313,8 @@ public:
 
     template<typename TQuantileOptions, typename = typename std::enable_if<std::is_base_of<basic_quantile_options, TQuantileOptions>::value, void>::type>
     timer_publish_options(TQuantileOptions&& quantile_options, bool rates, bool publish_count, bool publish_mean, const scale_factor& sf = scale_factor()) :
-            histogram_publish_options(quantile_options, publish_count, sf),
+            value_publish_options(sf),
+            histogram_publish_options(std::forward<TQuantileOptions>(quantile_options), publish_count, false, sf),
             meter_publish_options(publish_mean, sf),
             rates_(rates)
     { }
-- 
2.43.0


From 5f1115959f8c3e5787efd88deda21f638654bd0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:29 +0000
Subject: [PATCH 17/48] fix: a timer can be constructed with a clock instance

---
 cxxmetrics/timer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cxxmetrics/timer.hpp b/cxxmetrics/timer.hpp
index 56573b1..ce5c242 100644
--- a/cxxmetrics/timer.hpp
+++ b/cxxmetrics/timer.hpp
@@ -38,7 +38,7 @@ public:
      */
     timer(TReservoir &&reservoir, TClock &&clock) :
             histogram_(std::forward<TReservoir>(reservoir)),
-            clock_(std::forward<TReservoir>(clock))
+            clock_(std::forward<TClock>(clock))
     { }
 
 
-- 
2.43.0


From 8d8dea727327ec3059b7ce9c6d29734f7c657bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:29 +0000
Subject: [PATCH 18/48] fix: reading the rate of a const ewma does not change
 it

The read-only tick still marked the ewma as ticked, so a second read
without any writer in between returned a different rate.
---
 cxxmetrics/ewma.hpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/cxxmetrics/ewma.hpp b/cxxmetrics/ewma.hpp
index 0127f15..9ca7a6c 100644
--- a/cxxmetrics/ewma.hpp
+++ b/cxxmetrics/ewma.hpp
@@ -189,19 +189,19 @@ TValue ewma<TClockGet, TWindow, TInterval, TValue>::tick(const clock_point &at)
         if ((at - last) < period(TInterval))
             return pending;
 
+        // use constexpr if with 17
+        if (!TWrite)
+            return pending;
+
         bool ticked = false;
         if (ticked_.compare_exchange_weak(ticked, true))
         {
-            // use constexpr if with 17
-            if (TWrite)
-            {
-                // one thread sets the last timestamp
-                if (!pending_.compare_exchange_weak(pending, 0))
-                    return pending; // someone else ticked from under us
-
-                if (rate_.compare_exchange_weak(nrate, pending))
-                    last_ = at;
-            }
+            // one thread sets the last timestamp
+            if (!pending_.compare_exchange_weak(pending, 0))
+                return pending; // someone else ticked from under us
+
+            if (rate_.compare_exchange_weak(nrate, pending))
+                last_ = at;
 
             return pending;
         }
-- 
2.43.0


From 34be2186744660273220ba30754322ba9add6c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:29 +0000
Subject: [PATCH 19/48] fix: assigning an ewma copies its whole state

The ticked flag was left out, and the assignment wrote the alpha value
that every ewma of the type shares.
---
 cxxmetrics/ewma.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cxxmetrics/ewma.hpp b/cxxmetrics/ewma.hpp
index 9ca7a6c..1e3cfd6 100644
--- a/cxxmetrics/ewma.hpp
+++ b/cxxmetrics/ewma.hpp
@@ -252,9 +252,9 @@ TValue ewma<TClockGet, TWindow, TInterval, TValue>::tick(const clock_point &at)
 template<typename TClockGet, period::value TWindow, period::value TInterval, typename TValue>
 ewma<TClockGet, TWindow, TInterval, TValue> &ewma<TClockGet, TWindow, TInterval, TValue>::operator=(const ewma &c) noexcept
 {
-    alpha_ = c.alpha_;
     rate_.store(c.rate_.load());
     pending_.store(c.pending_.load());
+    ticked_.store(c.ticked_.load());
     last_ = c.last_;
     return *this;
 }
-- 
2.43.0


From 6b4a372aba4d2487c097ece4b1e6618abb019ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:29 +0000
Subject: [PATCH 20/48] fix: the last tick of an ewma is read and written
 atomically

Threads that mark the same ewma raced on it.
---
 cxxmetrics/ewma.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/cxxmetrics/ewma.hpp b/cxxmetrics/ewma.hpp
index 1e3cfd6..e199b6f 100644
--- a/cxxmetrics/ewma.hpp
+++ b/cxxmetrics/ewma.hpp
@@ -80,7 +80,7 @@ private:
 
     TClockGet clk_;
     std::atomic<TValue> rate_;
-    clock_point last_;
+    std::atomic<clock_point> last_;
     std::atomic<TValue> pending_;
     std::atomic<bool> ticked_;
 
@@ -127,7 +127,7 @@ template<typename TClockGet, period::value TWindow, period::value TInterval, typ
 ewma<TClockGet, TWindow, TInterval, TValue>::ewma(const ewma &c) noexcept :
     clk_(c.clk_),
     rate_(c.rate_.load()),
-    last_(c.last_),
+    last_(c.last_.load()),
     pending_(c.pending_.load()),
     ticked_(c.ticked_.load())
 {
@@ -141,7 +141,7 @@ void ewma<TClockGet, TWindow, TInterval, TValue>::mark(TMark amount) noexcept
     auto now = clk_();
 
     // our clock went backwards
-    if (now < last_)
+    if (now < last_.load())
         return;
 
     tick(now);
@@ -176,7 +176,7 @@ TValue ewma<TClockGet, TWindow, TInterval, TValue>::tick(const clock_point &at)
     int missed_intervals;
     clock_point last;
 
-    last = last_;
+    last = last_.load();
 
     auto pending = pending_.load();
     auto nrate = rate_.load();
@@ -243,8 +243,8 @@ TValue ewma<TClockGet, TWindow, TInterval, TValue>::tick(const clock_point &at)
         return rate; // someone else already either ticked or added a pending value
 
     rate_.store(rate);
-    if (last_ < at)
-        last_ = at;
+    last = last_.load();
+    while (last < at && !last_.compare_exchange_weak(last, at));
 
     return rate;
 }
@@ -255,7 +255,7 @@ ewma<TClockGet, TWindow, TInterval, TValue> &ewma<TClockGet, TWindow, TInterval,
     rate_.store(c.rate_.load());
     pending_.store(c.pending_.load());
     ticked_.store(c.ticked_.load());
-    last_ = c.last_;
+    last_.store(c.last_.load());
     return *this;
 }
 
-- 
2.43.0


From ab0b961017978d5fd8a3bf05d1cecb2d4773ccd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:29 +0000
Subject: [PATCH 21/48] fix: the start of a meter is read and written
 atomically

Threads that mark the same meter raced on it.
---
 cxxmetrics/meter.hpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/cxxmetrics/meter.hpp b/cxxmetrics/meter.hpp
index 3cd3f8a..84438a0 100644
--- a/cxxmetrics/meter.hpp
+++ b/cxxmetrics/meter.hpp
@@ -246,18 +246,18 @@ template<typename TClockGet, period::value TInterval, period::value ...TWindows>
 class _meter_impl : public _meter_impl_base<TClockGet, TInterval, TWindows...>
 {
     using clock_point = typename clock_traits<TClockGet>::clock_point;
-    clock_point start_;
+    std::atomic<clock_point> start_;
     std::atomic_int_fast64_t total_;
 public:
     explicit _meter_impl(const TClockGet &clkget) noexcept :
             _meter_impl_base<TClockGet, TInterval, TWindows...>(clkget),
-            start_{},
+            start_(clock_point{}),
             total_(0)
     { }
 
     _meter_impl(const _meter_impl &c) noexcept :
             _meter_impl_base<TClockGet, TInterval, TWindows...>(c),
-            start_(c.start_),
+            start_(c.start_.load()),
             total_(c.total_.load())
     {
 
@@ -266,7 +266,7 @@ public:
     _meter_impl &operator=(const _meter_impl &c) noexcept
     {
         _meter_impl_base<TClockGet, TInterval, TWindows...>::operator=(c);
-        start_ = c.start_;
+        start_.store(c.start_.load());
         total_.store(c.total_.load());
 
         return *this;
@@ -274,9 +274,10 @@ public:
 
     inline double mean() const noexcept
     {
-        auto since = this->now() - start_;
+        auto start = start_.load();
+        auto since = this->now() - start;
         auto units = (since * 1.0l) / this->interval();
-        if (start_ == clock_point{})
+        if (start == clock_point{})
             units = 1;
         if (!units)
             return (total_ * 1.0l);
@@ -286,8 +287,11 @@ public:
     void mark(int64_t by = 1)
     {
         // this will be imperfect but it should be close enough
-        if (start_ == clock_point{})
-            start_ = this->now();
+        if (start_.load() == clock_point{})
+        {
+            clock_point unset{};
+            start_.compare_exchange_strong(unset, this->now());
+        }
 
         _meter_impl_base<TClockGet, TInterval, TWindows...>::mark(by);
         total_ += by;
-- 
2.43.0


From 6e01cab89fb9d37b0a59fd3458fe7b68b005f372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:29 +0000
Subject: [PATCH 22/48] fix: gauges honour their aggregation, and it is part of
 their type

Function, pointer and reference gauges always averaged, and asking the
registry for a sum gauge where an average one was registered handed out
the wrong type instead of throwing.
---
 cxxmetrics/gauge.hpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/cxxmetrics/gauge.hpp b/cxxmetrics/gauge.hpp
index 2e4f767..f2bfc5a 100644
--- a/cxxmetrics/gauge.hpp
+++ b/cxxmetrics/gauge.hpp
@@ -146,7 +146,7 @@ typename functional_gauge<TFn, TAggregation>::gauge_type functional_gauge<TFn, T
 }
 
 template<typename TRefType, gauge_aggregation_type TAggregation = aggregation_average>
-class referential_gauge : public gauge<TRefType>
+class referential_gauge : public gauge<TRefType, TAggregation>
 {
     std::reference_wrapper<TRefType> value_;
 public:
@@ -212,7 +212,7 @@ TRefType referential_gauge<TRefType, TAggregation>::get() const noexcept
  * \tparam TGaugeType The type of data for the gauge
  */
 template<typename TGaugeType, gauges::gauge_aggregation_type TAggregation = gauges::aggregation_average>
-class gauge : public gauges::primitive_gauge<TGaugeType, TAggregation>, public metric<gauge<TGaugeType>>
+class gauge : public gauges::primitive_gauge<TGaugeType, TAggregation>, public metric<gauge<TGaugeType, TAggregation>>
 {
 public:
     explicit gauge(const TGaugeType& value = TGaugeType()) noexcept :
@@ -225,7 +225,7 @@ public:
 
     gauge& operator=(const TGaugeType& value) noexcept
     {
-        gauges::primitive_gauge<TGaugeType>::operator=(value);
+        gauges::primitive_gauge<TGaugeType, TAggregation>::operator=(value);
         return *this;
     }
     gauge& operator=(const gauge& other) = default;
@@ -233,14 +233,14 @@ public:
 };
 
 template<typename T, gauges::gauge_aggregation_type TAggregation>
-class gauge<std::function<T()>, TAggregation> : public gauges::functional_gauge<std::function<T()>>, public metric<gauge<std::function<T()>>>
+class gauge<std::function<T()>, TAggregation> : public gauges::functional_gauge<std::function<T()>, TAggregation>, public metric<gauge<std::function<T()>, TAggregation>>
 {
 public:
     explicit gauge(const std::function<T()> &fn) :
-            gauges::functional_gauge<std::function<T()>>(fn)
+            gauges::functional_gauge<std::function<T()>, TAggregation>(fn)
     { }
     explicit gauge(std::function<T()> &&fn) noexcept :
-            gauges::functional_gauge<std::function<T()>>(std::move(fn))
+            gauges::functional_gauge<std::function<T()>, TAggregation>(std::move(fn))
     { }
     gauge(const gauge& copy) = default;
     gauge(gauge&& mv) = default;
@@ -251,11 +251,11 @@ public:
 };
 
 template<typename TGaugeType, gauges::gauge_aggregation_type TAggregation>
-class gauge<TGaugeType*, TAggregation> : public gauges::referential_gauge<TGaugeType>, public metric<gauge<TGaugeType &>>
+class gauge<TGaugeType*, TAggregation> : public gauges::referential_gauge<TGaugeType, TAggregation>, public metric<gauge<TGaugeType*, TAggregation>>
 {
 public:
     inline explicit gauge(TGaugeType* ptr) noexcept :
-            gauges::referential_gauge<TGaugeType>(*ptr)
+            gauges::referential_gauge<TGaugeType, TAggregation>(*ptr)
     { }
     gauge(const gauge& copy) = default;
     ~gauge() = default;
@@ -264,11 +264,11 @@ public:
 };
 
 template<typename TGaugeType, gauges::gauge_aggregation_type TAggregation>
-class gauge<TGaugeType &, TAggregation> : public gauges::referential_gauge<TGaugeType>, public metric<gauge<TGaugeType &>>
+class gauge<TGaugeType &, TAggregation> : public gauges::referential_gauge<TGaugeType, TAggregation>, public metric<gauge<TGaugeType &, TAggregation>>
 {
 public:
     inline explicit gauge(TGaugeType& ref) noexcept :
-            gauges::referential_gauge<TGaugeType>(ref)
+            gauges::referential_gauge<TGaugeType, TAggregation>(ref)
     { }
     gauge(const gauge& copy) = default;
     ~gauge() = default;
-- 
2.43.0


From f80074f2db7ffe92eb2286089907a7e4e55eeb1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:29 +0000
Subject: [PATCH 23/48] fix: visiting a metric takes the same stack for any
 number of tags

The visitors were allocated with alloca in the loop, which overflowed
the stack with enough permutations of the tags.
---
 cxxmetrics/metrics_registry.hpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/cxxmetrics/metrics_registry.hpp b/cxxmetrics/metrics_registry.hpp
index 259ecf2..eceb09f 100644
--- a/cxxmetrics/metrics_registry.hpp
+++ b/cxxmetrics/metrics_registry.hpp
@@ -272,13 +272,16 @@ template<typename TMetricType>
 void registered_metric<TMetricType>::visit_each(cxxmetrics::internal::registered_snapshot_visitor_builder &builder)
 {
     std::lock_guard<std::mutex> lock(lock_);
+
+    // the stack is only released on return, so every visitor is built in the same place
+    auto sz = builder.visitor_size() + sizeof(std::max_align_t);
+    void* ptr = alloca(sz);
+
+    std::align(alignof(std::max_align_t), builder.visitor_size(), ptr, sz);
+    auto loc = reinterpret_cast<snapshot_visitor*>(ptr);
+
     for (auto& p : metrics_)
     {
-        auto sz = builder.visitor_size() + sizeof(std::max_align_t);
-        void* ptr = alloca(sz);
-
-        std::align(sizeof(std::max_align_t), sz, ptr, sz);
-        auto loc = reinterpret_cast<snapshot_visitor*>(ptr);
         builder.construct(loc, p.first);
         try
         {
-- 
2.43.0


From 86ab0eef4b6860b51b5c15f7e271e328d00dec1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:29 +0000
Subject: [PATCH 24/48] fix: popping from an atomic_lifo acquires the node

The content of a node that another thread pushed was read without any
ordering with the push.
---
 cxxmetrics/internal/atomic_lifo.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cxxmetrics/internal/atomic_lifo.hpp b/cxxmetrics/internal/atomic_lifo.hpp
index bf31d2c..3a12142 100644
--- a/cxxmetrics/internal/atomic_lifo.hpp
+++ b/cxxmetrics/internal/atomic_lifo.hpp
@@ -289,13 +289,14 @@ namespace cxxmetrics {
 
             pointer_type pop()
             {
-                auto h = head_.load(std::memory_order_relaxed);
+                // acquire, because the node that was pushed by another thread is read
+                auto h = head_.load(std::memory_order_acquire);
                 head_t next;
                 while (h.nodev)
                 {
                     next.aba = h.aba + 1;
                     next.nodev = list_node_traits<node>::next_of(*h.nodev);
-                    if (head_.compare_exchange_weak(h, next, std::memory_order_release, std::memory_order_relaxed)) {
+                    if (head_.compare_exchange_weak(h, next, std::memory_order_acq_rel, std::memory_order_acquire)) {
                         break;
                     }
                 }
-- 
2.43.0


From 3a8bd08485a47df40ec55fe53c7de493a71e57ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:29 +0000
Subject: [PATCH 25/48] fix: prometheus tag values escape backslashes and line
 feeds

A line feed in a tag value started a new line of the exposition.
---
 cxxmetrics_prometheus/snapshot_writer.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cxxmetrics_prometheus/snapshot_writer.hpp b/cxxmetrics_prometheus/snapshot_writer.hpp
index 6708ff6..4b99887 100644
--- a/cxxmetrics_prometheus/snapshot_writer.hpp
+++ b/cxxmetrics_prometheus/snapshot_writer.hpp
@@ -55,6 +55,10 @@ inline std::ostream& format_tag_value(std::ostream& into, const std::string& val
     {
         if (c == '"')
             into << "\\\"";
+        else if (c == '\\')
+            into << "\\\\";
+        else if (c == '\n')
+            into << "\\n";
         else
             into << c;
     }
-- 
2.43.0


From d40fafad641c9cde86f92da34fa4e72cb6dd63f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:29 +0000
Subject: [PATCH 26/48] fix: characters of prometheus names are classified as
 unsigned

Negative values are undefined for the ctype functions.
---
 cxxmetrics_prometheus/snapshot_writer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cxxmetrics_prometheus/snapshot_writer.hpp b/cxxmetrics_prometheus/snapshot_writer.hpp
index 4b99887..aefdaa7 100644
--- a/cxxmetrics_prometheus/snapshot_writer.hpp
+++ b/cxxmetrics_prometheus/snapshot_writer.hpp
@@ -24,7 +24,7 @@ inline std::ostream& format_name_element(std::ostream&into, const std::string& e
     for (std::size_t i = 0; i < element.size(); i++)
     {
         char c = element[i];
-        if (!isalnum(c))
+        if (!isalnum(static_cast<unsigned char>(c)))
             into << '_';
         else
             into << c;
@@ -36,7 +36,7 @@ inline std::ostream& format_name_element(std::ostream&into, const std::string& e
 inline std::ostream& format_name(std::ostream& into, const cxxmetrics::metric_path& path)
 {
     auto elem = path.begin();
-    if (std::isdigit((*elem)[0]))
+    if (std::isdigit(static_cast<unsigned char>((*elem)[0])))
         into << '_';
 
     format_name_element(into, *elem);
-- 
2.43.0


From 5160b7fc590fdd08bbb96bde8f19060e97eeab8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:29 +0000
Subject: [PATCH 27/48] fix: different meter windows have different prometheus
 labels

The window was truncated to its largest unit, so 60 and 90 minutes were
both published as 1hr.
---
 cxxmetrics_prometheus/snapshot_writer.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cxxmetrics_prometheus/snapshot_writer.hpp b/cxxmetrics_prometheus/snapshot_writer.hpp
index aefdaa7..2e1dd86 100644
--- a/cxxmetrics_prometheus/snapshot_writer.hpp
+++ b/cxxmetrics_prometheus/snapshot_writer.hpp
@@ -89,27 +89,27 @@ template<typename TRep, typename TPer>
 std::ostream& format_window(std::ostream& into, const std::chrono::duration<TRep, TPer>& time)
 {
     using namespace std::chrono_literals;
-    if (time >= 1h)
+    if (time >= 1h && time % 1h == time.zero())
     {
         into << std::chrono::duration_cast<std::chrono::hours>(time).count() << "hr";
         return into;
     }
-    if (time >= 1min)
+    if (time >= 1min && time % 1min == time.zero())
     {
         into << std::chrono::duration_cast<std::chrono::minutes>(time).count() << "min";
         return into;
     }
-    if (time >= 1s)
+    if (time >= 1s && time % 1s == time.zero())
     {
         into << std::chrono::duration_cast<std::chrono::seconds>(time).count() << "sec";
         return into;
     }
-    if (time >= 1ms)
+    if (time >= 1ms && time % 1ms == time.zero())
     {
         into << std::chrono::duration_cast<std::chrono::milliseconds>(time).count() << "msec";
         return into;
     }
-    if (time >= 1us)
+    if (time >= 1us && time % 1us == time.zero())
     {
         into << std::chrono::duration_cast<std::chrono::microseconds>(time).count() << "usec";
         return into;
-- 
2.43.0


From 4fe59195f2d1fc0d40b788387e84b4699f296609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:04 +0000
Subject: [PATCH 28/48] fix: the prometheus help text of a timer stays on its
 line

A line feed in the path of a timer started a new line of the exposition.
---
 cxxmetrics_prometheus/prometheus_timer.hpp |  3 ++-
 cxxmetrics_prometheus/snapshot_writer.hpp  | 15 +++++++++++++++
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/cxxmetrics_prometheus/prometheus_timer.hpp b/cxxmetrics_prometheus/prometheus_timer.hpp
index b5ae3ac..c618f02 100644
--- a/cxxmetrics_prometheus/prometheus_timer.hpp
+++ b/cxxmetrics_prometheus/prometheus_timer.hpp
@@ -11,7 +11,8 @@ class snapshot_writer<cxxmetrics::timer_snapshot>
 {
     void write_header() const
     {
-        stream << "# HELP " << internal::name(path) << " " << path.join("/") << " in microseconds\n";
+        stream << "# HELP " << internal::name(path) << " ";
+        internal::format_help(stream, path.join("/")) << " in microseconds\n";
         stream << "# TYPE " << internal::name(path) << " summary\n";
     }
 
diff --git a/cxxmetrics_prometheus/snapshot_writer.hpp b/cxxmetrics_prometheus/snapshot_writer.hpp
index 2e1dd86..aacfd99 100644
--- a/cxxmetrics_prometheus/snapshot_writer.hpp
+++ b/cxxmetrics_prometheus/snapshot_writer.hpp
@@ -66,6 +66,21 @@ inline std::ostream& format_tag_value(std::ostream& into, const std::string& val
     return into;
 }
 
+inline std::ostream& format_help(std::ostream& into, const std::string& text)
+{
+    for (auto c : text)
+    {
+        if (c == '\\')
+            into << "\\\\";
+        else if (c == '\n')
+            into << "\\n";
+        else
+            into << c;
+    }
+
+    return into;
+}
+
 inline std::ostream& format_tags(std::ostream& into, const cxxmetrics::tag_collection& tags)
 {
     auto tag = tags.begin();
-- 
2.43.0


From 23ded57856c677c0ee51e3a2ca40ea9b10c1c953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:04 +0000
Subject: [PATCH 29/48] fix: prometheus tag names do not start with a digit

Metric names already get an underscore in front of a leading digit.
---
 cxxmetrics_prometheus/snapshot_writer.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/cxxmetrics_prometheus/snapshot_writer.hpp b/cxxmetrics_prometheus/snapshot_writer.hpp
index aacfd99..9de3f3b 100644
--- a/cxxmetrics_prometheus/snapshot_writer.hpp
+++ b/cxxmetrics_prometheus/snapshot_writer.hpp
@@ -81,19 +81,27 @@ inline std::ostream& format_help(std::ostream& into, const std::string& text)
     return into;
 }
 
+inline std::ostream& format_tag_name(std::ostream& into, const std::string& name)
+{
+    if (std::isdigit(static_cast<unsigned char>(name[0])))
+        into << '_';
+
+    return format_name_element(into, name);
+}
+
 inline std::ostream& format_tags(std::ostream& into, const cxxmetrics::tag_collection& tags)
 {
     auto tag = tags.begin();
     if (tag == tags.end())
         return into;
 
-    format_name_element(into, tag->first);
+    format_tag_name(into, tag->first);
     into << "=\"";
     format_tag_value(into, tag->second) << "\"";
     for (++tag; tag != tags.end(); ++tag)
     {
         into << ",";
-        format_name_element(into, tag->first) << "=\"";
+        format_tag_name(into, tag->first) << "=\"";
         format_tag_value(into, tag->second) << "\"";
     }
 
-- 
2.43.0


From ee6f94c10f8e314a5d3324f27d9794d69499e1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:29 +0000
Subject: [PATCH 30/48] fix: metric values convert to durations by their unit

static_cast<nanoseconds>(metric_value) picks the explicit constructor of the
duration, which takes the count for nanoseconds whatever the unit of the value
---
 cxxmetrics/metric_value.hpp                | 4 +++-
 cxxmetrics_prometheus/prometheus_timer.hpp | 4 ++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/cxxmetrics/metric_value.hpp b/cxxmetrics/metric_value.hpp
index 0c5c338..ebff5d6 100644
--- a/cxxmetrics/metric_value.hpp
+++ b/cxxmetrics/metric_value.hpp
@@ -989,7 +989,9 @@ namespace chrono
 template<typename _ToDur>
 constexpr _ToDur duration_cast(const cxxmetrics::metric_value &v)
 {
-    return duration_cast<_ToDur>(static_cast<std::chrono::nanoseconds>(v));
+    // static_cast would use the constructor of the duration, which takes the value for a count of nanoseconds
+    std::chrono::nanoseconds nanos = v;
+    return duration_cast<_ToDur>(nanos);
 }
 
 }
diff --git a/cxxmetrics_prometheus/prometheus_timer.hpp b/cxxmetrics_prometheus/prometheus_timer.hpp
index c618f02..14373cd 100644
--- a/cxxmetrics_prometheus/prometheus_timer.hpp
+++ b/cxxmetrics_prometheus/prometheus_timer.hpp
@@ -28,12 +28,12 @@ public:
         if (options.timer_options().include_count())
             stream << internal::name(path) << "_count{" << internal::tags(tags) << "} " << internal::scale_value(snapshot.count(), options.timer_options()) << "\n";
 
-        stream << internal::name(path) << "_mean{" << internal::tags(tags) << "} " << internal::scale_value(std::chrono::duration_cast<std::chrono::microseconds>(static_cast<std::chrono::nanoseconds>(snapshot.mean())), options.timer_options()) << "\n";
+        stream << internal::name(path) << "_mean{" << internal::tags(tags) << "} " << internal::scale_value(std::chrono::duration_cast<std::chrono::microseconds>(snapshot.mean()), options.timer_options()) << "\n";
         options.timer_options().quantiles()->visit(snapshot, [&](cxxmetrics::quantile q, cxxmetrics::metric_value&& value) {
             stream << internal::name(path) <<
                     '{' << "quantile=\"" << (q.percentile() / 100.0) << "\"" << comma <<
                     internal::tags(tags) << "} " <<
-                    internal::scale_value(std::chrono::duration_cast<std::chrono::microseconds>(static_cast<std::chrono::nanoseconds>(value)), options.timer_options()) << "\n";
+                    internal::scale_value(std::chrono::duration_cast<std::chrono::microseconds>(value), options.timer_options()) << "\n";
         });
 
         if (options.timer_options().include_rates())
-- 
2.43.0


From 3bd4cde3a25097b9aa9cc892a7c1e8e1dff1af7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:28 +0000
Subject: [PATCH 31/48] fix: subtracting narrower or unsigned metric values
 does not wrap them

the subtracted operand was negated in its own type before it was added
---
 cxxmetrics/metric_value.hpp | 58 +++++++++++++++++++++++++++++++++++--
 1 file changed, 56 insertions(+), 2 deletions(-)

diff --git a/cxxmetrics/metric_value.hpp b/cxxmetrics/metric_value.hpp
index ebff5d6..a2cf36a 100644
--- a/cxxmetrics/metric_value.hpp
+++ b/cxxmetrics/metric_value.hpp
@@ -26,6 +26,7 @@ public:
     virtual void copy(void* into) const noexcept = 0;
     virtual void move(void* into) noexcept { return copy(into); }
     virtual void add(const variant_data& other) noexcept = 0;
+    virtual void subtract(const variant_data& other) noexcept = 0;
     virtual void multiply(const variant_data& other) noexcept = 0;
     virtual void divide(const variant_data& other) noexcept = 0;
     // replaces the value with numerator / value, keeping the type of the value
@@ -98,6 +99,20 @@ public:
         }
     }
 
+    void subtract(const variant_data& other) noexcept override
+    {
+        bool valid;
+        auto lv = other.to_integral(&valid);
+        if (valid)
+            val_ -= lv;
+        else
+        {
+            auto fv = other.to_float(&valid);
+            if (valid)
+                val_ -= fv;
+        }
+    }
+
     void multiply(const variant_data& other) noexcept override
     {
         bool valid;
@@ -247,6 +262,14 @@ public:
             val_ += fv;
     }
 
+    void subtract(const variant_data& other) noexcept override
+    {
+        bool valid;
+        auto fv = other.to_float(&valid);
+        if (valid)
+            val_ -= fv;
+    }
+
     void multiply(const variant_data& other) noexcept override
     {
         bool valid;
@@ -414,6 +437,13 @@ public:
         val_ += other.to_string();
     }
 
+    void subtract(const variant_data& other) noexcept override
+    {
+        string_variant_data negated(other.to_string());
+        negated.negate();
+        add(negated);
+    }
+
     void multiply(const variant_data& other) noexcept override
     {
     }
@@ -519,6 +549,14 @@ public:
             dur_ += std::chrono::duration_cast<std::chrono::duration<TRep, TPeriod>>(n);
     }
 
+    void subtract(const variant_data& other) noexcept override
+    {
+        bool valid;
+        auto n = other.to_nanos(&valid);
+        if (valid)
+            dur_ -= std::chrono::duration_cast<std::chrono::duration<TRep, TPeriod>>(n);
+    }
+
     void multiply(const variant_data& other) noexcept override
     {
         bool valid;
@@ -638,6 +676,14 @@ class variant_data_holder
         return result;
     }
 
+    variant_data_holder uc_sub(const variant_data_holder& other) const
+    {
+        variant_data_holder result(as<variant_data>());
+        result.as<variant_data>()->subtract(*other.as<variant_data>());
+
+        return result;
+    }
+
     variant_data_holder uc_mult(const variant_data_holder& other) const
     {
         variant_data_holder result(as<variant_data>());
@@ -778,6 +824,14 @@ public:
         return uc_add(other);
     }
 
+    // a narrower or unsigned operand can't be negated in its own type
+    variant_data_holder subtract(const variant_data_holder& other) const
+    {
+        if (other.as<variant_data>()->type_score() > as<variant_data>()->type_score())
+            return other.negate().uc_add(*this);
+        return uc_sub(other);
+    }
+
     variant_data_holder multiply(const variant_data_holder& other) const
     {
         if (other.as<variant_data>()->type_score() > as<variant_data>()->type_score())
@@ -849,7 +903,7 @@ public:
 
     metric_value& operator-=(const metric_value& other)
     {
-        value_ = (value_.add(other.value_.negate()));
+        value_ = (value_.subtract(other.value_));
         return *this;
     }
 
@@ -872,7 +926,7 @@ public:
 
     metric_value operator-(const metric_value& other) const
     {
-        return metric_value(value_.add(other.value_.negate()));
+        return metric_value(value_.subtract(other.value_));
     }
 
     metric_value operator/(const metric_value& other) const
-- 
2.43.0


From c44eed2049f7b7bb4746a7bda565e55c731ff8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:08 +0000
Subject: [PATCH 32/48] fix: marks taken by the first tick of an ewma are not
 dropped

---
 cxxmetrics/ewma.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cxxmetrics/ewma.hpp b/cxxmetrics/ewma.hpp
index e199b6f..d790cfd 100644
--- a/cxxmetrics/ewma.hpp
+++ b/cxxmetrics/ewma.hpp
@@ -202,6 +202,8 @@ TValue ewma<TClockGet, TWindow, TInterval, TValue>::tick(const clock_point &at)
 
             if (rate_.compare_exchange_weak(nrate, pending))
                 last_ = at;
+            else
+                atomic_add(pending_, pending); // keep what we took for the next tick
 
             return pending;
         }
-- 
2.43.0


From 2e4983ae62227d1573df08f8b36d7020cf7a01a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:36 +0000
Subject: [PATCH 33/48] fix: a tick of an ewma overwrote the rate a concurrent
 tick had applied

---
 cxxmetrics/ewma.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cxxmetrics/ewma.hpp b/cxxmetrics/ewma.hpp
index d790cfd..71e37f9 100644
--- a/cxxmetrics/ewma.hpp
+++ b/cxxmetrics/ewma.hpp
@@ -244,7 +244,13 @@ TValue ewma<TClockGet, TWindow, TInterval, TValue>::tick(const clock_point &at)
     if (!pending_.compare_exchange_weak(pending, 0))
         return rate; // someone else already either ticked or added a pending value
 
-    rate_.store(rate);
+    // someone else may have applied an interval to the rate we started from
+    if (!rate_.compare_exchange_strong(nrate, static_cast<TValue>(rate)))
+    {
+        atomic_add(pending_, pending); // keep what we took for the next tick
+        return rate;
+    }
+
     last = last_.load();
     while (last < at && !last_.compare_exchange_weak(last, at));
 
-- 
2.43.0


From e78e40adc18a20d2c35cd7e535b7a2a2216e8db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:04 +0000
Subject: [PATCH 34/48] fix: timer::time could not be called in C++14:
 invoke_result looked for the result of a value instead of a call

---
 cxxmetrics/metric.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cxxmetrics/metric.hpp b/cxxmetrics/metric.hpp
index 4fbfa07..4145d46 100644
--- a/cxxmetrics/metric.hpp
+++ b/cxxmetrics/metric.hpp
@@ -5,8 +5,8 @@
 
 #if __cplusplus < 201700L
 namespace std {
-template<typename T>
-using invoke_result = result_of<T>;
+template<typename T, typename... TArgs>
+using invoke_result = result_of<T(TArgs...)>;
 }
 #endif
 
-- 
2.43.0


From c2ea7ae129480f5a8fc2d5de21d486cdfe7b5e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:28 +0000
Subject: [PATCH 35/48] fix: assigning a ring buffer to itself emptied it

---
 cxxmetrics/ringbuf.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cxxmetrics/ringbuf.hpp b/cxxmetrics/ringbuf.hpp
index b53fcab..b35ffd7 100644
--- a/cxxmetrics/ringbuf.hpp
+++ b/cxxmetrics/ringbuf.hpp
@@ -208,6 +208,9 @@ ringbuf<TElemType, TSize>::ringbuf(const ringbuf &other) noexcept :
 template<typename TElemType, size_t TSize>
 ringbuf<TElemType, TSize> &ringbuf<TElemType, TSize>::operator=(const ringbuf &other) noexcept
 {
+    if (this == &other)
+        return *this;
+
     tail_ = 0;
     size_ = 0;
 
-- 
2.43.0


From a1b06ef56f5b079371f48ca0f93c90ce906ffd70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:42 +0000
Subject: [PATCH 36/48] fix: assigning a moving average left the target with
 its old clock

---
 cxxmetrics/ewma.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cxxmetrics/ewma.hpp b/cxxmetrics/ewma.hpp
index 71e37f9..076329b 100644
--- a/cxxmetrics/ewma.hpp
+++ b/cxxmetrics/ewma.hpp
@@ -260,6 +260,7 @@ TValue ewma<TClockGet, TWindow, TInterval, TValue>::tick(const clock_point &at)
 template<typename TClockGet, period::value TWindow, period::value TInterval, typename TValue>
 ewma<TClockGet, TWindow, TInterval, TValue> &ewma<TClockGet, TWindow, TInterval, TValue>::operator=(const ewma &c) noexcept
 {
+    clk_ = c.clk_;
     rate_.store(c.rate_.load());
     pending_.store(c.pending_.load());
     ticked_.store(c.ticked_.load());
-- 
2.43.0


From d8bc4adc3bb65b45fa01d5f6b611f585b35ec5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:44 +0000
Subject: [PATCH 37/48] fix: empty names of metrics and tags made malformed
 Prometheus output

---
 cxxmetrics_prometheus/snapshot_writer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cxxmetrics_prometheus/snapshot_writer.hpp b/cxxmetrics_prometheus/snapshot_writer.hpp
index 9de3f3b..9bd9634 100644
--- a/cxxmetrics_prometheus/snapshot_writer.hpp
+++ b/cxxmetrics_prometheus/snapshot_writer.hpp
@@ -36,7 +36,7 @@ inline std::ostream& format_name_element(std::ostream&into, const std::string& e
 inline std::ostream& format_name(std::ostream& into, const cxxmetrics::metric_path& path)
 {
     auto elem = path.begin();
-    if (std::isdigit(static_cast<unsigned char>((*elem)[0])))
+    if (elem->empty() || std::isdigit(static_cast<unsigned char>((*elem)[0])))
         into << '_';
 
     format_name_element(into, *elem);
@@ -83,7 +83,7 @@ inline std::ostream& format_help(std::ostream& into, const std::string& text)
 
 inline std::ostream& format_tag_name(std::ostream& into, const std::string& name)
 {
-    if (std::isdigit(static_cast<unsigned char>(name[0])))
+    if (name.empty() || std::isdigit(static_cast<unsigned char>(name[0])))
         into << '_';
 
     return format_name_element(into, name);
-- 
2.43.0


From 714a836ee28ae7e5fafa2c23ade35adaa0819b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:15 +0000
Subject: [PATCH 38/48] fix: text and signed nans were written as Prometheus
 samples

---
 cxxmetrics_prometheus/snapshot_writer.hpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/cxxmetrics_prometheus/snapshot_writer.hpp b/cxxmetrics_prometheus/snapshot_writer.hpp
index 9bd9634..6ca24e7 100644
--- a/cxxmetrics_prometheus/snapshot_writer.hpp
+++ b/cxxmetrics_prometheus/snapshot_writer.hpp
@@ -2,6 +2,8 @@
 #define CXXMETRICS_SNAPSHOT_WRITER_HPP
 
 #include <cctype>
+#include <cmath>
+#include <limits>
 #include <ostream>
 #include <cxxmetrics/snapshots.hpp>
 #include <cxxmetrics/publisher.hpp>
@@ -12,11 +14,21 @@ namespace cxxmetrics_prometheus
 namespace internal
 {
 
+// text that isn't a number and nan with a sign would break the output
+inline cxxmetrics::metric_value sample_value(cxxmetrics::metric_value&& value)
+{
+    const std::string text = value;
+    if (text.find_first_not_of("+-.0123456789eEinftyaINFTYA") != std::string::npos || std::isnan(static_cast<long double>(value)))
+        return cxxmetrics::metric_value(std::numeric_limits<double>::quiet_NaN());
+    return std::move(value);
+}
+
 inline cxxmetrics::metric_value scale_value(cxxmetrics::metric_value&& value, const cxxmetrics::value_publish_options& opts)
 {
+    auto sample = sample_value(std::move(value));
     if (opts.scale())
-        return value * cxxmetrics::metric_value(opts.scale().factor());
-    return std::move(value);
+        return sample_value(sample * cxxmetrics::metric_value(opts.scale().factor()));
+    return sample;
 }
 
 inline std::ostream& format_name_element(std::ostream&into, const std::string& element)
-- 
2.43.0


From c44ff76940cf280b4081a7a97feb3b6b9e60c655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:29 +0000
Subject: [PATCH 39/48] fix: assigning a metric value to itself destroyed it

---
 cxxmetrics/metric_value.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cxxmetrics/metric_value.hpp b/cxxmetrics/metric_value.hpp
index a2cf36a..4580337 100644
--- a/cxxmetrics/metric_value.hpp
+++ b/cxxmetrics/metric_value.hpp
@@ -787,6 +787,9 @@ public:
 
     variant_data_holder& operator=(variant_data_holder&& other) noexcept
     {
+        if (this == &other)
+            return *this;
+
         as<variant_data>()->~variant_data();
         other.as<variant_data>()->move(std::addressof(v));
         return *this;
-- 
2.43.0


From 372aa3682e40020edebfc54a89b0cdc3b7794266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:44 +0000
Subject: [PATCH 40/48] fix: equal metric values of different widths or units
 hashed differently

---
 cxxmetrics/metric_value.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cxxmetrics/metric_value.hpp b/cxxmetrics/metric_value.hpp
index 4580337..c1ddb3e 100644
--- a/cxxmetrics/metric_value.hpp
+++ b/cxxmetrics/metric_value.hpp
@@ -241,7 +241,8 @@ public:
 
     std::size_t hash_value() const override
     {
-        return std::hash<T>()(val_);
+        // values of different widths that compare equal have the same hash
+        return std::hash<long double>()(val_);
     }
 
     void copy(void* into) const noexcept override
@@ -525,7 +526,8 @@ public:
 
     std::size_t hash_value() const override
     {
-        return std::hash<std::chrono::duration<TRep, TPeriod>>()(dur_);
+        // durations in different units that compare equal have the same hash
+        return std::hash<std::chrono::nanoseconds>()(std::chrono::duration_cast<std::chrono::nanoseconds>(dur_));
     }
 
     void copy(void* into) const noexcept override
-- 
2.43.0


From 90d05afd38f464275243c5ed394f16e2ebde18cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:16 +0000
Subject: [PATCH 41/48] fix: floating point values of different widths were
 compared after rounding to the narrower one

---
 cxxmetrics/metric_value.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cxxmetrics/metric_value.hpp b/cxxmetrics/metric_value.hpp
index c1ddb3e..e7529d3 100644
--- a/cxxmetrics/metric_value.hpp
+++ b/cxxmetrics/metric_value.hpp
@@ -817,8 +817,14 @@ public:
         return as<variant_data>()->to_nanos(nullptr);
     }
 
+    // like calculations, comparisons are done in the wider type, a narrower one may not tell the values apart
     int compare(const variant_data_holder& other) const
     {
+        if (other.as<variant_data>()->type_score() > as<variant_data>()->type_score())
+        {
+            auto result = other.as<variant_data>()->compare(*as<variant_data>());
+            return result < 0 ? 1 : result > 0 ? -1 : 0;
+        }
         return as<variant_data>()->compare(*other.as<variant_data>());
     }
 
-- 
2.43.0


From fea14d0bb6df8766ce3902412c89de9a5f5c9949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:27 +0000
Subject: [PATCH 42/48] fix: the widest unsigned values compared less than
 negative values

---
 cxxmetrics/metric_value.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cxxmetrics/metric_value.hpp b/cxxmetrics/metric_value.hpp
index e7529d3..9d342ce 100644
--- a/cxxmetrics/metric_value.hpp
+++ b/cxxmetrics/metric_value.hpp
@@ -198,6 +198,10 @@ public:
             return val_ < fv ? -1 : val_ == fv ? 0 : 1;
         }
 
+        // a negative value of another type would turn into a large one
+        if (std::is_same<common, T>::value && std::is_unsigned<T>::value && other.to_float(nullptr) < 0)
+            return 1;
+
         auto v = static_cast<common>(val_);
         return v < lv ? -1 : v == lv ? 0 : 1;
     }
-- 
2.43.0


From e3e699e5d5643d03373cf45eddcd983cac4b77bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:38 +0000
Subject: [PATCH 43/48] fix: durations with a fraction of a nanosecond were
 unequal to themselves

---
 cxxmetrics/metric_value.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cxxmetrics/metric_value.hpp b/cxxmetrics/metric_value.hpp
index 9d342ce..01681e4 100644
--- a/cxxmetrics/metric_value.hpp
+++ b/cxxmetrics/metric_value.hpp
@@ -644,7 +644,9 @@ public:
         if (!valid)
             return -1;
 
-        return dur_ < n ? -1 : dur_ == n ? 0 : 1;
+        // a fraction of a nanosecond would make a value differ from itself
+        auto v = std::chrono::duration_cast<std::chrono::nanoseconds>(dur_);
+        return v < n ? -1 : v == n ? 0 : 1;
     }
 };
 
-- 
2.43.0


From 4d35498b3cdc7a38a9e0ccae33742885004cc07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:41 +0000
Subject: [PATCH 44/48] fix: dividing by the widest unsigned value negated the
 dividend

---
 cxxmetrics/metric_value.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cxxmetrics/metric_value.hpp b/cxxmetrics/metric_value.hpp
index 01681e4..bf3b594 100644
--- a/cxxmetrics/metric_value.hpp
+++ b/cxxmetrics/metric_value.hpp
@@ -137,7 +137,7 @@ public:
         {
             if (!lv)
                 val_ = 0;
-            else if (lv == -1) // the smallest value can't be divided by -1, so negate with wrap around
+            else if (std::is_signed<T>::value && lv == -1) // the smallest value can't be divided by -1, so negate with wrap around
                 val_ = static_cast<T>(~static_cast<unsigned long long>(val_) + 1);
             else
                 val_ /= lv;
-- 
2.43.0


From 121977e384eeb4ff63a41fca84672dd8a8e21411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:01 +0000
Subject: [PATCH 45/48] fix: calculations of durations with a fraction rounded
 or truncated it, and trapped on a zero

---
 cxxmetrics/metric_value.hpp | 63 ++++++++++++++++---------------------
 1 file changed, 27 insertions(+), 36 deletions(-)

diff --git a/cxxmetrics/metric_value.hpp b/cxxmetrics/metric_value.hpp
index bf3b594..0d42c9c 100644
--- a/cxxmetrics/metric_value.hpp
+++ b/cxxmetrics/metric_value.hpp
@@ -566,40 +566,32 @@ public:
     void multiply(const variant_data& other) noexcept override
     {
         bool valid;
-        auto lv = other.to_integral(&valid);
+        auto fv = other.to_float(&valid);
         if (!valid)
-        {
-            auto fv = other.to_float(&valid);
-            if (!valid)
-                return;
-
-            dur_ *= fv;
             return;
-        }
 
-        dur_ *= lv;
+        // only whole numbers are exact in the type of the duration
+        auto lv = other.to_integral(&valid);
+        if (valid && lv == fv)
+            dur_ *= lv;
+        else
+            dur_ = std::chrono::duration<TRep, TPeriod>(static_cast<TRep>(dur_.count() * fv));
     }
 
     void divide(const variant_data& other) noexcept override
     {
         bool valid;
-        auto lv = other.to_integral(&valid);
+        auto fv = other.to_float(&valid);
         if (!valid)
-        {
-            auto fv = other.to_float(&valid);
-            if (!valid)
-                return;
-
-            if (!fv)
-                dur_ = dur_.zero();
-            else
-                dur_ /= fv;
-
             return;
-        }
 
-        if (!lv)
+        auto lv = other.to_integral(&valid);
+        if (!fv)
             dur_ = dur_.zero();
+        else if (!valid || lv != fv)
+            dur_ = std::chrono::duration<TRep, TPeriod>(static_cast<TRep>(dur_.count() / fv));
+        else if (lv == -1) // the smallest duration can't be divided by -1
+            negate();
         else
             dur_ /= lv;
     }
@@ -607,25 +599,24 @@ public:
     void divide_into(const variant_data& numerator) noexcept override
     {
         bool valid;
-        auto lv = numerator.to_integral(&valid);
+        auto fv = numerator.to_float(&valid);
         if (!valid)
-        {
-            auto fv = numerator.to_float(&valid);
-            if (!valid)
-                return;
-
-            if (!dur_.count())
-                dur_ = dur_.zero();
-            else
-                dur_ = std::chrono::duration<TRep, TPeriod>(static_cast<TRep>(fv / dur_.count()));
-
             return;
-        }
 
-        if (!dur_.count())
+        auto divisor = dur_.count();
+        auto lv = numerator.to_integral(&valid);
+        if (!divisor)
             dur_ = dur_.zero();
+        else if (!valid || lv != fv)
+            dur_ = std::chrono::duration<TRep, TPeriod>(static_cast<TRep>(fv / divisor));
         else
-            dur_ = std::chrono::duration<TRep, TPeriod>(static_cast<TRep>(lv / dur_.count()));
+        {
+            dur_ = std::chrono::duration<TRep, TPeriod>(static_cast<TRep>(lv));
+            if (divisor == -1)
+                negate();
+            else
+                dur_ /= divisor;
+        }
     }
 
     void negate() noexcept override
-- 
2.43.0


From d364a94169e1a28205903487434f78f8ad3c8f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:31 +0000
Subject: [PATCH 46/48] fix: calculations with a narrow floating point operand
 rounded it when the other one was a wide integer

---
 cxxmetrics/metric_value.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cxxmetrics/metric_value.hpp b/cxxmetrics/metric_value.hpp
index 0d42c9c..5821162 100644
--- a/cxxmetrics/metric_value.hpp
+++ b/cxxmetrics/metric_value.hpp
@@ -256,7 +256,7 @@ public:
 
     int type_score() const override
     {
-        return (sizeof(T) * 20);
+        return (sizeof(T) * 20) + 2; // a fraction does not fit an integer, even one of twice the size
     }
 
     void add(const variant_data& other) noexcept override
@@ -542,9 +542,9 @@ public:
     int type_score() const override
     {
         if (std::is_floating_point<TRep>::value)
-            return (sizeof(TRep) * 20) + 2;
+            return (sizeof(TRep) * 20) + 3;
         else
-            return (sizeof(TRep) * 10) + 2;
+            return (sizeof(TRep) * 10) + 3;
     }
 
     void add(const variant_data& other) noexcept override
-- 
2.43.0


From 3a620151ed6a471f5321aec665ec340df23d0c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:14 +0000
Subject: [PATCH 47/48] fix: the rate of an idle moving average dropped to zero
 after its window and rose again afterwards

---
 cxxmetrics/ewma.hpp | 25 ++++---------------------
 1 file changed, 4 insertions(+), 21 deletions(-)

diff --git a/cxxmetrics/ewma.hpp b/cxxmetrics/ewma.hpp
index 076329b..fe832e4 100644
--- a/cxxmetrics/ewma.hpp
+++ b/cxxmetrics/ewma.hpp
@@ -173,7 +173,6 @@ template<typename TClockGet, period::value TWindow, period::value TInterval, typ
 template<bool TWrite>
 TValue ewma<TClockGet, TWindow, TInterval, TValue>::tick(const clock_point &at) noexcept
 {
-    int missed_intervals;
     clock_point last;
 
     last = last_.load();
@@ -213,26 +212,10 @@ TValue ewma<TClockGet, TWindow, TInterval, TValue>::tick(const clock_point &at)
     // if someone else already snagged the pending value, start over
     auto rate = nrate + (alpha_ * (pending - nrate));
 
-    // figure out how many intervals we've missed
-    missed_intervals = ((at - last) / period(TInterval)) - 1;
-    if (missed_intervals > 0)
-    {
-        // we missed some intervals - we'll average in zeros
-        if ((TWindow > TInterval) && (at - last) > period(TWindow))
-        {
-            constexpr auto intervals_per_window = TWindow / TInterval;
-            period::value missed_windows = missed_intervals / intervals_per_window;
-            rate = pow(rate, 1/pow(missed_windows, 2));
-
-            // figure out the missed intervals now
-            missed_intervals -= (missed_windows * intervals_per_window);
-        }
-
-        // this is the fastest way to do this - the alternative is a standard repeated integral
-        // but this is faster
-        for (int i = 0; i < missed_intervals; i++)
-            rate = rate + (alpha_ * -rate);
-    }
+    // if we missed some intervals, we'll average in zeros: each one takes the same part of the rate
+    auto intervals = (at - last) / period(TInterval);
+    if (intervals > 1)
+        rate *= std::pow(1 - alpha_, intervals - 1);
 
     if (std::isnan(rate) || std::isinf(rate))
         rate = TValue{};
-- 
2.43.0


From 8cf5f288453be41720edc4847fe0380264323526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:02 +0000
Subject: [PATCH 48/48] fix: an empty literal in front of a metric path added
 an empty component

---
 cxxmetrics/metric_path.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cxxmetrics/metric_path.hpp b/cxxmetrics/metric_path.hpp
index af3d62e..c21850c 100644
--- a/cxxmetrics/metric_path.hpp
+++ b/cxxmetrics/metric_path.hpp
@@ -124,7 +124,8 @@ inline metric_path operator/(const char (&pstr)[Size], const metric_path& other)
     std::vector<std::string> paths;
     paths.reserve(other.paths_.size() + 1);
 
-    paths.emplace_back(pstr);
+    if (Size > 1)
+        paths.emplace_back(pstr);
     paths.insert(paths.end(), other.paths_.begin(), other.paths_.end());
 
     return metric_path(std::move(paths));
-- 
2.43.0

