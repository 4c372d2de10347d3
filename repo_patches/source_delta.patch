From d55c4907feac2bc69e5f64c8294641dc7a9145bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:44 +0000
Subject: [PATCH 01/39] fix: a throwing task must not hang
 ThreadWorkerPool::DoTasks

A worker that caught an exception of a task never reported the task as done, so
DoTasks waited for its completion forever. Report it, and tell the caller.
---
 src/parallel/thread/thread_worker_pool.cpp |  9 +++++++++
 src/parallel/thread/worker.h               | 10 +++++++++-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/parallel/thread/thread_worker_pool.cpp b/src/parallel/thread/thread_worker_pool.cpp
index 050ea44..9cc1ec4 100644
--- a/src/parallel/thread/thread_worker_pool.cpp
+++ b/src/parallel/thread/thread_worker_pool.cpp
@@ -28,6 +28,15 @@ std::vector< ITaskResult::shared_ptr > ThreadWorkerPool::DoTasks (
     }
 
     worker_pool_.DoTasks(tasks_queue);
+
+    for(size_t i=0; i<results.size(); i++)
+    {
+        if(!results[i])
+        {
+            throw std::runtime_error("At least one of the tasks was not performed correctly.");
+        }
+    }
+
     return results;
 }
 
diff --git a/src/parallel/thread/worker.h b/src/parallel/thread/worker.h
index be96347..68d7e82 100644
--- a/src/parallel/thread/worker.h
+++ b/src/parallel/thread/worker.h
@@ -60,7 +60,15 @@ void Worker<TTask>::ProcessTasksQueue(ThreadSafeQueue<TTask>* tasks_to_do, Threa
             //boost::this_thread::disable_interruption di;
             TTask to_do;
             tasks_to_do->WaitAndPop(to_do);
-            to_do.DoTask();
+            try
+            {
+                to_do.DoTask();
+            }
+            catch(const std::exception& ex)
+            {
+                std::cout << "Incorrect task: " << ex.what() <<std::endl;
+            }
+            //A failed task is over too, the one waiting for it must be told so
             done_tasks->Push(to_do);
         }
         catch(boost::thread_interrupted&)
-- 
2.43.0


From ac12d2e2fd89c07f7db194635a6db0505eaadb2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:44 +0000
Subject: [PATCH 02/39] fix: unknown hardware concurrency must not make
 CreateBestWorkerPool throw

boost::thread::hardware_concurrency() is 0 when it can not be computed. Creating
the thread pool then threw instead of letting the factory fall back to the
sequential one.
---
 src/parallel/thread/thread_worker_pool_templated.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parallel/thread/thread_worker_pool_templated.h b/src/parallel/thread/thread_worker_pool_templated.h
index 8be88ad..d6cbed3 100644
--- a/src/parallel/thread/thread_worker_pool_templated.h
+++ b/src/parallel/thread/thread_worker_pool_templated.h
@@ -38,6 +38,11 @@ template <class TTask>
 ThreadWorkerPoolTemplated<TTask>::ThreadWorkerPoolTemplated()
 {
     number_of_workers_ = boost::thread::hardware_concurrency();
+    if(number_of_workers_ == 0)
+    {
+        //The number of hardware threads is not computable, boost reports 0
+        number_of_workers_ = 1;
+    }
     Initialize();
 }
 
-- 
2.43.0


From e6a486d959fcf07f70fe0255ee508b3c867bffd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:13 +0000
Subject: [PATCH 03/39] fix: encode every value of integer and real parameters

An integer range of a power of two got one bit too few and ranges above 2^30
never finished initialising; a real parameter truncated instead of rounding and
encoded its maximum as its minimum.
---
 .../optimization/params/double_parameter.h    |  2 +-
 src/optimization/params/double_parameter.cpp  | 30 ++++++++++++++-----
 src/optimization/params/int_parameter.cpp     | 13 +++++---
 3 files changed, 32 insertions(+), 13 deletions(-)

diff --git a/include/k52/optimization/params/double_parameter.h b/include/k52/optimization/params/double_parameter.h
index 43639fc..572e198 100644
--- a/include/k52/optimization/params/double_parameter.h
+++ b/include/k52/optimization/params/double_parameter.h
@@ -38,7 +38,7 @@ public:
 
 protected:
     static int GetMaxInt(double min_value, double max_value, double precision);
-    static int CountBestMaxInt(int initial_max_int);
+    static unsigned int CountBestMaxInt(int initial_max_int);
     bool CheckBounds(double value) const;
 
 private:
diff --git a/src/optimization/params/double_parameter.cpp b/src/optimization/params/double_parameter.cpp
index cab781e..f63a795 100644
--- a/src/optimization/params/double_parameter.cpp
+++ b/src/optimization/params/double_parameter.cpp
@@ -1,6 +1,7 @@
 #include <k52/common/random.h>
 #include <k52/optimization/params/double_parameter.h>
 
+#include <algorithm>
 #include <cmath>
 #include <stdexcept>
 
@@ -30,11 +31,12 @@ DoubleParameter::DoubleParameter(double desired_value, double min_value, double
         throw std::invalid_argument("desired_value does not lie within [min_value;max_value] interval.");
     }
 
-    int best_max_int = CountBestMaxInt( GetMaxInt(min_value, max_value, desired_precision) );
+    unsigned int best_max_int = CountBestMaxInt( GetMaxInt(min_value, max_value, desired_precision) );
     int min_int = 0;
 
     precision_ = (max_value - min_value) / best_max_int;
-    base_int_parameter_ = IntParameter::shared_ptr(new IntParameter(min_int, best_max_int));
+    //Exactly the values from 0 to (best_max_int - 1) can be encoded
+    base_int_parameter_ = IntParameter::shared_ptr(new IntParameter(min_int, (int)(best_max_int - 1)));
 
     SetValue(desired_value);
 
@@ -77,7 +79,7 @@ bool DoubleParameter::HasSameMetaParameters(const IDiscreteParameters* parameter
 
 bool DoubleParameter::CheckConstraints() const
 {
-    return CheckBounds(GetValue());
+    return base_int_parameter_->CheckConstraints() && CheckBounds(GetValue());
 }
 
 void DoubleParameter::SetChromosome(ChromosomeType::iterator from, ChromosomeType::iterator to) const
@@ -97,8 +99,20 @@ double DoubleParameter::GetValue() const
 
 void DoubleParameter::SetValue(double value)
 {
-    int int_value = (int)((value - min_value_)/precision_);
-    base_int_parameter_->set_value(int_value);
+    double position = (value - min_value_)/precision_;
+
+    if(CheckBounds(value))
+    {
+        //Nearest of the values that can be encoded
+        position = std::min(std::floor(position + 0.5), (double)base_int_parameter_->get_max_value());
+    }
+    else
+    {
+        //Value remains out of bounds
+        position = (value < min_value_) ? std::floor(position) : std::ceil(position);
+    }
+
+    base_int_parameter_->set_value((int)position);
 }
 
 double DoubleParameter::get_max_value() const
@@ -126,11 +140,11 @@ int DoubleParameter::GetMaxInt(double min_value, double max_value, double precis
     return max_int;
 }
 
-int DoubleParameter::CountBestMaxInt(int initial_max_int)
+unsigned int DoubleParameter::CountBestMaxInt(int initial_max_int)
 {
-    int best_max_int = 1;
+    unsigned int best_max_int = 1;
 
-    while(initial_max_int>best_max_int)
+    while((unsigned int)initial_max_int>best_max_int)
     {
         best_max_int *= 2;
     }
diff --git a/src/optimization/params/int_parameter.cpp b/src/optimization/params/int_parameter.cpp
index 50f83ee..30de957 100644
--- a/src/optimization/params/int_parameter.cpp
+++ b/src/optimization/params/int_parameter.cpp
@@ -87,12 +87,17 @@ void IntParameter::Initialize(int value, int min_value, int max_value)
 
 size_t IntParameter::CountChromosomeSize(int min_value, int max_value)
 {
-    int x = 1;
-    int target = max_value - min_value;
+    if(max_value <= min_value)
+    {
+        return 0;
+    }
+
+    //Number of bits needed to represent every value from 0 to (max_value - min_value)
+    unsigned int target = (unsigned int)max_value - (unsigned int)min_value;
     size_t power = 0;
-    while(target>x)
+    while(target > 0)
     {
-        x*=2;
+        target /= 2;
         power++;
     }
     return power;
-- 
2.43.0


From 45648c0aa08753fc225fe3507c58d8b2187bfb04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:17 +0000
Subject: [PATCH 04/39] fix: DoubleParametersArray must keep its values when
 new ones are refused

Values were assigned before being checked, and a new array held zeros whatever
its bounds.
---
 .../params/double_parameters_array.cpp             | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/optimization/params/double_parameters_array.cpp b/src/optimization/params/double_parameters_array.cpp
index 1e11e75..18239ec 100644
--- a/src/optimization/params/double_parameters_array.cpp
+++ b/src/optimization/params/double_parameters_array.cpp
@@ -12,7 +12,7 @@ DoubleParametersArray::DoubleParametersArray(double min_value,
                                              double desired_precision,
                                              size_t number_of_parameters)
     : sample_parameter_ (new DoubleParameter(min_value, min_value, max_value, desired_precision)),
-      values_(number_of_parameters)
+      values_(number_of_parameters, min_value)
 {
     SetConstChromosomeSize(CountTotalChromosomeSize());
 }
@@ -102,12 +102,16 @@ void DoubleParametersArray::SetValues(const std::vector<double>& values)
         throw std::invalid_argument("Values has incorrect size.");
     }
 
-    values_ = values;
-
-    if (!CheckConstraints())
+    for (size_t i = 0; i < values.size(); i++)
     {
-        throw std::invalid_argument("One of the values does not satisfy constraints.");
+        sample_parameter_->SetValue(values[i]);
+        if (!sample_parameter_->CheckConstraints())
+        {
+            throw std::invalid_argument("One of the values does not satisfy constraints.");
+        }
     }
+
+    values_ = values;
 }
 
 std::vector<double> DoubleParametersArray::get_values() const
-- 
2.43.0


From 4b1574f7323fdb86cef7d3caa5a70d46a575ccd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:41 +0000
Subject: [PATCH 05/39] fix: a refused second initialisation must not change
 composite parameters

---
 .../params/composite_discrete_parameters.h    |  2 +-
 .../params/composite_discrete_parameters.cpp  | 27 +++++++------------
 2 files changed, 11 insertions(+), 18 deletions(-)

diff --git a/include/k52/optimization/params/composite_discrete_parameters.h b/include/k52/optimization/params/composite_discrete_parameters.h
index 198a9a6..67dbaf8 100644
--- a/include/k52/optimization/params/composite_discrete_parameters.h
+++ b/include/k52/optimization/params/composite_discrete_parameters.h
@@ -35,7 +35,7 @@ public:
     const IDiscreteParameters::shared_ptr GetParameter(size_t index) const;
 
 private:
-    size_t CountTotalChromosomeSize() const;
+    static size_t CountTotalChromosomeSize(const std::vector<IDiscreteParameters::shared_ptr>& parameters_set);
 
     std::vector<IDiscreteParameters::shared_ptr> parameters_set_;
     InitializationChecker initialization_checker_;
diff --git a/src/optimization/params/composite_discrete_parameters.cpp b/src/optimization/params/composite_discrete_parameters.cpp
index b117c77..6c9882c 100644
--- a/src/optimization/params/composite_discrete_parameters.cpp
+++ b/src/optimization/params/composite_discrete_parameters.cpp
@@ -81,30 +81,23 @@ void CompositeDiscreteParameters::SetFromChromosome(ChromosomeType::const_iterat
 
 void CompositeDiscreteParameters::Initialize(const std::vector<IDiscreteParameters::shared_ptr>& parameters)
 {
-    parameters_set_ = std::vector<IDiscreteParameters::shared_ptr>(parameters.size());
+    std::vector<IDiscreteParameters::shared_ptr> parameters_set(parameters.size());
 
-    for(size_t i=0; i<parameters_set_.size(); i++)
+    for(size_t i=0; i<parameters_set.size(); i++)
     {
-        parameters_set_[i] = IDiscreteParameters::shared_ptr(parameters[i]->Clone());
+        parameters_set[i] = IDiscreteParameters::shared_ptr(parameters[i]->Clone());
     }
 
-    this->SetConstChromosomeSize( CountTotalChromosomeSize() );
+    this->SetConstChromosomeSize( CountTotalChromosomeSize(parameters_set) );
 
     initialization_checker_.SetInitialized();
+
+    parameters_set_ = parameters_set;
 }
 
 void CompositeDiscreteParameters::Initialize(const IDiscreteParameters::shared_ptr& sample_parameter, size_t number_of_parameters)
 {
-    parameters_set_ = std::vector<IDiscreteParameters::shared_ptr>(number_of_parameters);
-
-    for(size_t i=0; i<parameters_set_.size(); i++)
-    {
-        parameters_set_[i] = IDiscreteParameters::shared_ptr(sample_parameter->Clone());
-    }
-
-    this->SetConstChromosomeSize( CountTotalChromosomeSize() );
-
-    initialization_checker_.SetInitialized();
+    Initialize(std::vector<IDiscreteParameters::shared_ptr>(number_of_parameters, sample_parameter));
 }
 
 size_t CompositeDiscreteParameters::GetNumberOfParameters() const
@@ -126,12 +119,12 @@ const IDiscreteParameters::shared_ptr CompositeDiscreteParameters::GetParameter(
     return parameters_set_[index];
 }
 
-size_t CompositeDiscreteParameters::CountTotalChromosomeSize() const
+size_t CompositeDiscreteParameters::CountTotalChromosomeSize(const std::vector<IDiscreteParameters::shared_ptr>& parameters_set)
 {
     size_t total_chromosome_size = 0;
-    for(size_t i=0; i<parameters_set_.size(); i++)
+    for(size_t i=0; i<parameters_set.size(); i++)
     {
-        total_chromosome_size += parameters_set_[i]->GetChromosomeSize();
+        total_chromosome_size += parameters_set[i]->GetChromosomeSize();
     }
     return total_chromosome_size;
 }
-- 
2.43.0


From e2f6ddcc251e450acd71f8c89bb27120a7936b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:07 +0000
Subject: [PATCH 06/39] fix: a refused second initialisation must not change an
 individual

---
 src/optimization/genetic_algorithm/individual.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/optimization/genetic_algorithm/individual.cpp b/src/optimization/genetic_algorithm/individual.cpp
index 70e0e24..8de4863 100644
--- a/src/optimization/genetic_algorithm/individual.cpp
+++ b/src/optimization/genetic_algorithm/individual.cpp
@@ -61,14 +61,16 @@ Individual& Individual::operator=(const Individual & a)
 
 void Individual::Initialize(const IDiscreteParameters* const parameters)
 {
-    parameters_ = IDiscreteParameters::shared_ptr(parameters->Clone());
-    chromosome_ = ChromosomeType ( parameters_->GetChromosomeSize() );
-    parameters->SetChromosome(chromosome_.begin(), chromosome_.end());
+    IDiscreteParameters::shared_ptr own_parameters(parameters->Clone());
+    ChromosomeType chromosome( own_parameters->GetChromosomeSize() );
+    parameters->SetChromosome(chromosome.begin(), chromosome.end());
 
+    initialization_checker_.SetInitialized();
+
+    parameters_ = own_parameters;
+    chromosome_ = chromosome;
     has_fitness_ = false;
     times_chosen_for_crossover_ = 0;
-
-    initialization_checker_.SetInitialized();
 }
 
 const IDiscreteParameters* const Individual::GetParametersAccordingToChromosome() const
-- 
2.43.0


From 89cd151290a332c0122c030ed4b24b5613a67522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:12 +0000
Subject: [PATCH 07/39] fix: refused crossover or reading must leave the
 individual as it was

---
 src/optimization/genetic_algorithm/individual.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/optimization/genetic_algorithm/individual.cpp b/src/optimization/genetic_algorithm/individual.cpp
index 8de4863..de737e7 100644
--- a/src/optimization/genetic_algorithm/individual.cpp
+++ b/src/optimization/genetic_algorithm/individual.cpp
@@ -120,12 +120,12 @@ bool Individual::Crossover(Individual* another)
 {
     initialization_checker_.InitializationCheck();
 
+    BoolCrossover(&(this->chromosome_), &(another->chromosome_));
+
     //TODO check if Individual has changed
     another->has_fitness_ = false;
     this->has_fitness_ = false;
 
-    BoolCrossover(&(this->chromosome_), &(another->chromosome_));
-
     this->SetParametersAccordingToChromosome();
     another->SetParametersAccordingToChromosome();
 
@@ -299,8 +299,8 @@ std::istream& operator>> (std::istream& in, Individual& individual)
         }
     }
 
-    individual.chromosome_ = new_chromosome;
     individual.set_fitness(fitness);
+    individual.chromosome_ = new_chromosome;
     individual.SetParametersAccordingToChromosome();
 
     return in;
-- 
2.43.0


From f9868a45f5378332175bd9eeb9538144238abb05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:55 +0000
Subject: [PATCH 08/39] fix: the linear mutator's probability must stay between
 its two ends

With one generation it was not a number, and rounding could push it below zero,
which aborted the whole run.
---
 .../genetic_algorithm/linear_mutator.cpp             | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/optimization/genetic_algorithm/linear_mutator.cpp b/src/optimization/genetic_algorithm/linear_mutator.cpp
index 8294f67..d332734 100644
--- a/src/optimization/genetic_algorithm/linear_mutator.cpp
+++ b/src/optimization/genetic_algorithm/linear_mutator.cpp
@@ -1,3 +1,4 @@
+#include <algorithm>
 #include <stdexcept>
 #include <k52/common/random.h>
 #include <k52/optimization/linear_mutator.h>
@@ -25,7 +26,16 @@ double LinearMutator::GetCurrentGenMutationProbability()
 {
     double current = get_mutation_context().current_generation;
     double max = get_mutation_context().max_number_of_generations - 1;
-    return (end_mutation_value_ - start_mutation_value_) * current / max + start_mutation_value_;
+    if (max <= 0)
+    {
+        return start_mutation_value_;
+    }
+
+    double probability = (end_mutation_value_ - start_mutation_value_) * current / max + start_mutation_value_;
+
+    //Rounding must not lead out of the interval
+    return std::max(std::min(start_mutation_value_, end_mutation_value_),
+        std::min(probability, std::max(start_mutation_value_, end_mutation_value_)));
 }
 }/* namespace optimization */
 }/* namespace k52 */
-- 
2.43.0


From 0e6b76b13c6c5f5d16755307b2080ad72c133538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:55 +0000
Subject: [PATCH 09/39] fix: random draws must stay in range and use only the
 generator's own bits

Random booleans used two bits the generator does not have, real draws could
exceed the upper bound by rounding, an impossible event could happen and
not-a-number passed for a probability.
---
 src/common/random.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/common/random.cpp b/src/common/random.cpp
index e31dd0e..d401ac4 100644
--- a/src/common/random.cpp
+++ b/src/common/random.cpp
@@ -1,5 +1,6 @@
 #include <k52/common/random.h>
 
+#include <algorithm>
 #include <stdlib.h>
 #include <cstdlib>
 #include <time.h>
@@ -19,7 +20,7 @@ Random& Random::Instance()
 
 void Random::ValidateProbability(double probability)
 {
-    if ( probability < 0 || probability > 1 )
+    if ( !(probability >= 0 && probability <= 1) )
     {
         throw std::invalid_argument("Invalid probability value");
     }
@@ -33,7 +34,9 @@ double Random::GetBaseRandomQuantity()
 double Random::GetContinuousRandomQuantity(double min_value, double max_value)
 {
     double base = GetBaseRandomQuantity();
-    return base * (max_value - min_value) + min_value;
+    double value = base * (max_value - min_value) + min_value;
+    //Rounding must not lead out of the interval
+    return min_value < max_value ? std::min(value, max_value) : value;
 }
 
 std::vector<double> Random::GenerateRandomVector(size_t vector_size, double min_value, double max_value)
@@ -61,7 +64,7 @@ bool Random::CheckEventOutcome(double event_probability)
 {
     ValidateProbability(event_probability);
 
-    return GetBaseRandomQuantity() <= event_probability;
+    return GetBaseRandomQuantity() <= event_probability && event_probability > 0;
 }
 
 Random::Random()
@@ -73,7 +76,7 @@ Random::Random()
     next_bit_in_bool_base_ = 0;
 
     max_bit_in_bool_base_ = 0;
-    int max_bool_base_value = 1;
+    long long max_bool_base_value = 1;
 
     for (std::size_t i = 0; i < sizeof(int) * 8; i++)
     {
-- 
2.43.0


From 7c63a6372ceeddfacc98bfca9ed4805a859d7d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:55 +0000
Subject: [PATCH 10/39] fix: the flip-bit mutator must refuse a zero or invalid
 probability

---
 src/optimization/genetic_algorithm/flip_bit_mutator.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/optimization/genetic_algorithm/flip_bit_mutator.cpp b/src/optimization/genetic_algorithm/flip_bit_mutator.cpp
index 9819cde..2c435d3 100644
--- a/src/optimization/genetic_algorithm/flip_bit_mutator.cpp
+++ b/src/optimization/genetic_algorithm/flip_bit_mutator.cpp
@@ -1,7 +1,9 @@
 #include <k52/optimization/flip_bit_mutator.h>
 #include <k52/common/random.h>
 
+#include <algorithm>
 #include <cmath>
+#include <cstdlib>
 #include <stdexcept>
 
 using ::k52::common::Random;
@@ -15,7 +17,12 @@ FlipBitMutator::FlipBitMutator(double gen_mutation_probability)
 {
     mutation_probability_ = gen_mutation_probability;
 
-    max_number_of_skipped_gens_ = (int)std::floor(1 / mutation_probability_) - 1;
+    if ( !(mutation_probability_ > 0) )
+    {
+        throw std::invalid_argument("gen_mutation_probability was set incorrectly");
+    }
+
+    max_number_of_skipped_gens_ = (int)std::min(std::floor(1 / mutation_probability_) - 1, (double)(RAND_MAX - 1));
 
     if (max_number_of_skipped_gens_ <= 0)
     {
-- 
2.43.0


From 081912af50b6bae5ad83a85d59225dbb183da904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:41 +0000
Subject: [PATCH 11/39] fix: looking up a key must not change the cache

---
 include/k52/common/cache.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/k52/common/cache.h b/include/k52/common/cache.h
index bebf1ce..abb980b 100644
--- a/include/k52/common/cache.h
+++ b/include/k52/common/cache.h
@@ -75,16 +75,16 @@ typename Cache<TKey, TValue>::shared_ptr Cache<TKey, TValue>::Create(double data
 template <typename TKey, typename TValue>
 bool Cache<TKey, TValue>::IsCached(const TKey& key)
 {
-    StoredValue<TValue> stored_value = cache_map_[key];
-    return stored_value.has_value();
+    return cache_map_.find(key) != cache_map_.end();
 }
 
 template <typename TKey, typename TValue>
 TValue Cache<TKey, TValue>::GetCachedValue(const TKey& key)
 {
-    StoredValue<TValue>& stored_value = cache_map_[key];
-    if (stored_value.has_value())
+    typename Cache<TKey, TValue>::cache_map_type::iterator it = cache_map_.find(key);
+    if (it != cache_map_.end())
     {
+        StoredValue<TValue>& stored_value = it->second;
         stored_value.IncrementUsage();
         return stored_value.get_value();
     }
-- 
2.43.0


From cfb05d954c5939462c086ba199d3f7c947cb0640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:58 +0000
Subject: [PATCH 12/39] fix: an individual's parameters must agree with its
 chromosome from the start

Initial values that the chromosome cannot represent exactly were evaluated
instead of the values the chromosome stands for.
---
 src/optimization/genetic_algorithm/individual.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/optimization/genetic_algorithm/individual.cpp b/src/optimization/genetic_algorithm/individual.cpp
index de737e7..ac6aeb9 100644
--- a/src/optimization/genetic_algorithm/individual.cpp
+++ b/src/optimization/genetic_algorithm/individual.cpp
@@ -64,6 +64,8 @@ void Individual::Initialize(const IDiscreteParameters* const parameters)
     IDiscreteParameters::shared_ptr own_parameters(parameters->Clone());
     ChromosomeType chromosome( own_parameters->GetChromosomeSize() );
     parameters->SetChromosome(chromosome.begin(), chromosome.end());
+    //Parameters must be exactly the ones represented by the chromosome
+    own_parameters->SetFromChromosome(chromosome.begin(), chromosome.end());
 
     initialization_checker_.SetInitialized();
 
-- 
2.43.0


From 7208ca059aa9aaa9b797e3be35ba04c804bca732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:05 +0000
Subject: [PATCH 13/39] fix: reject initial populations of a wrong size,
 invalid or truncated

Fewer initial parameters than individuals were read past the end; parameters
violating the constraints and a file without the last fitness were accepted.
---
 .../genetic_algorithm/genetic_algorithm.cpp         | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/optimization/genetic_algorithm/genetic_algorithm.cpp b/src/optimization/genetic_algorithm/genetic_algorithm.cpp
index 3ac508a..2661ebb 100644
--- a/src/optimization/genetic_algorithm/genetic_algorithm.cpp
+++ b/src/optimization/genetic_algorithm/genetic_algorithm.cpp
@@ -144,9 +144,9 @@ void GeneticAlgorithm::Optimize(const DiscreteObjectiveFunction &function_to_opt
 
 void GeneticAlgorithm::SetInitialParameters(std::vector<IDiscreteParameters::shared_ptr> initial_parameters)
 {
-    initial_parameters_ = std::vector<IDiscreteParameters::shared_ptr>(population_size_);
+    initial_parameters_ = std::vector<IDiscreteParameters::shared_ptr>(initial_parameters.size());
 
-    for (std::size_t i = 0; i < population_size_; ++i)
+    for (std::size_t i = 0; i < initial_parameters.size(); ++i)
     {
         initial_parameters_[i] = IDiscreteParameters::shared_ptr((initial_parameters[i])->Clone());
     }
@@ -233,6 +233,11 @@ void GeneticAlgorithm::ValidateInitialParameters(const IDiscreteParameters* para
             throw std::invalid_argument("Initial parameters have defferent chromosome representation. "
                 "Check if their meta-parameters are equal to parameters_to_optimeze's.");
         }
+
+        if (!initial_parameters_[i]->CheckConstraints())
+        {
+            throw std::invalid_argument("Initial parameters do not satisfy constraints.");
+        }
     }
 }
 
@@ -489,6 +494,10 @@ void GeneticAlgorithm::InputPopulation(std::ifstream & in)
     for(std::size_t i = 0;i < population_size; i++)
     {
         in >> *(population_[i]);
+        if( !in )
+        {
+            throw std::logic_error("Unable to read an Individual. The file may be corrupted.");
+        }
         if( !(population_[i])->IsValid() )
         {
             throw std::logic_error("The Individual read from file does not satisfy constraints. "
-- 
2.43.0


From bfdcbe5cdec572043d199edb6dd0072df79b6bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:11 +0000
Subject: [PATCH 14/39] fix: the fitness cache must not serve values of another
 run's function

---
 src/optimization/genetic_algorithm/genetic_algorithm.cpp | 5 +++++
 src/optimization/objective_function_counter.cpp          | 8 +++++++-
 src/optimization/objective_function_counter.h            | 2 ++
 3 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/optimization/genetic_algorithm/genetic_algorithm.cpp b/src/optimization/genetic_algorithm/genetic_algorithm.cpp
index 2661ebb..453ed37 100644
--- a/src/optimization/genetic_algorithm/genetic_algorithm.cpp
+++ b/src/optimization/genetic_algorithm/genetic_algorithm.cpp
@@ -128,6 +128,11 @@ void GeneticAlgorithm::Optimize(const DiscreteObjectiveFunction &function_to_opt
         throw std::invalid_argument("GeneticAlgorithm currently can only maximize function.");
     }
 
+    //Nothing from the previous run (maybe of another function) must be used
+    fitness_counter_->ClearCache();
+    fitness_counter_->ResetCacheHits();
+    invalid_chromosomes_ = 0;
+
     Initialize(parameters_to_optimize);
 
     if(!population_file_name_.empty())
diff --git a/src/optimization/objective_function_counter.cpp b/src/optimization/objective_function_counter.cpp
index 02f0abb..01093ee 100644
--- a/src/optimization/objective_function_counter.cpp
+++ b/src/optimization/objective_function_counter.cpp
@@ -17,7 +17,8 @@ ObjectiveFunctionCounter::ObjectiveFunctionCounter(double cache_data_limit_in_me
 {
     cache_hits_ = 0;
     objective_function_counts_ = 0;
-    cache_ = FitnessCache::Create(cache_data_limit_in_megabytes);
+    cache_data_limit_in_megabytes_ = cache_data_limit_in_megabytes;
+    ClearCache();
 
 #ifdef BUILD_WITH_MPI
     CountObjectiveFunctionTask task;
@@ -65,6 +66,11 @@ vector<double> ObjectiveFunctionCounter::CountObjectiveFunctionValues(
     return counted_values;
 }
 
+void ObjectiveFunctionCounter::ClearCache()
+{
+    cache_ = FitnessCache::Create(cache_data_limit_in_megabytes_);
+}
+
 void ObjectiveFunctionCounter::ResetCacheHits()
 {
     cache_hits_ = 0;
diff --git a/src/optimization/objective_function_counter.h b/src/optimization/objective_function_counter.h
index 231687c..a28101a 100644
--- a/src/optimization/objective_function_counter.h
+++ b/src/optimization/objective_function_counter.h
@@ -37,6 +37,7 @@ public:
         const std::vector<const IParameters*>& parameters_to_count,
         const IObjectiveFunction& objective_function);
 
+    void ClearCache();
     void ResetCacheHits();
     int get_cache_hits() const;
     int get_objective_function_counts() const;
@@ -64,6 +65,7 @@ protected:
 private:
     k52::parallel::IWorkerPool::shared_ptr fitness_worker_pool_;
     FitnessCache::shared_ptr cache_;
+    double cache_data_limit_in_megabytes_;
     boost::hash< ChromosomeType > chromosome_hash_function_;
     int objective_function_counts_;
     int cache_hits_;
-- 
2.43.0


From 86fcb4a0cf0d96cb3cfd93f004ac0bd52f4661e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:57 +0000
Subject: [PATCH 15/39] fix: the fitness cache must tell chromosomes with equal
 hashes apart

---
 src/optimization/objective_function_counter.cpp | 9 ++++-----
 src/optimization/objective_function_counter.h   | 3 +--
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/optimization/objective_function_counter.cpp b/src/optimization/objective_function_counter.cpp
index 01093ee..aa2ba82 100644
--- a/src/optimization/objective_function_counter.cpp
+++ b/src/optimization/objective_function_counter.cpp
@@ -98,11 +98,11 @@ void ObjectiveFunctionCounter::ProcessPopulation(
     {
         if (cache_)
         {
-            size_t chromosome_hash_value = chromosome_hash_function_( ((*population)[i])->GetChromosome() );
+            const ChromosomeType& chromosome = ((*population)[i])->GetChromosome();
 
-            if (cache_->IsCached(chromosome_hash_value))
+            if (cache_->IsCached(chromosome))
             {
-                ((*population)[i])->set_fitness(cache_->GetCachedValue(chromosome_hash_value));
+                ((*population)[i])->set_fitness(cache_->GetCachedValue(chromosome));
                 cache_hits_ ++;
                 continue;
             }
@@ -168,8 +168,7 @@ void ObjectiveFunctionCounter::AddNewCacheValues(
     {
         Individual::shared_ptr current_individ = (*population)[ new_cache_indexes[i] ];
         double fitness_value = current_individ->get_fitness();
-        size_t chromosome_hash_value = chromosome_hash_function_( current_individ->GetChromosome() );
-        value_records.push_back(FitnessCache::CacheRecord(chromosome_hash_value, fitness_value));
+        value_records.push_back(FitnessCache::CacheRecord(current_individ->GetChromosome(), fitness_value));
     }
 
     cache_->AddValues(value_records);
diff --git a/src/optimization/objective_function_counter.h b/src/optimization/objective_function_counter.h
index a28101a..943d695 100644
--- a/src/optimization/objective_function_counter.h
+++ b/src/optimization/objective_function_counter.h
@@ -25,7 +25,7 @@ class ObjectiveFunctionCounter
 {
 public:
     typedef boost::shared_ptr<ObjectiveFunctionCounter> shared_ptr;
-    typedef k52::common::Cache<std::size_t, double> FitnessCache;
+    typedef k52::common::Cache<ChromosomeType, double> FitnessCache;
 
     explicit ObjectiveFunctionCounter(double cache_data_limit_in_megabytes);
 
@@ -66,7 +66,6 @@ private:
     k52::parallel::IWorkerPool::shared_ptr fitness_worker_pool_;
     FitnessCache::shared_ptr cache_;
     double cache_data_limit_in_megabytes_;
-    boost::hash< ChromosomeType > chromosome_hash_function_;
     int objective_function_counts_;
     int cache_hits_;
 
-- 
2.43.0


From 227396b20c939e776176fa240555c0d59bb77770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:08 +0000
Subject: [PATCH 16/39] fix: discrete draws from wide ranges must not overflow

---
 src/common/random.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/common/random.cpp b/src/common/random.cpp
index d401ac4..20e3b67 100644
--- a/src/common/random.cpp
+++ b/src/common/random.cpp
@@ -57,7 +57,9 @@ bool Random::GetRandomBool()
 
 int Random::GetUniformlyDistributedDiscreteRandomQuantity(int min_value, int max_value)
 {
-    return rand() % (max_value-min_value+1) + min_value;
+    //The number of values may not fit into int
+    long long values_count = (long long)max_value - min_value + 1;
+    return (int)(rand() % values_count + min_value);
 }
 
 bool Random::CheckEventOutcome(double event_probability)
-- 
2.43.0


From 033056080e0ea7e0541ae7af26ef368b4c8a2273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:46 +0000
Subject: [PATCH 17/39] fix: a search from no starting points must be refused,
 not read out of bounds

---
 src/optimization/optimization_parameters_processor.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/optimization/optimization_parameters_processor.cpp b/src/optimization/optimization_parameters_processor.cpp
index 02aa245..f7b5d16 100644
--- a/src/optimization/optimization_parameters_processor.cpp
+++ b/src/optimization/optimization_parameters_processor.cpp
@@ -29,6 +29,10 @@ IParameters::shared_ptr OptimizationParametersProcessor::ProcessParameters(
     const std::vector< IParameters::shared_ptr >& parameters,
     bool maximize)
 {
+    if(parameters.size() < 1)
+    {
+        throw std::invalid_argument("parameters should contain at least one element in vector");
+    }
     std::vector< OptimizationTask::shared_ptr > tasks (parameters.size());
     std::vector< const parallel::ITask* > task_pointers (parameters.size());
     for(size_t i=0; i<parameters.size(); i++)
-- 
2.43.0


From 8ab33f1dbcc92944f09f713f33ef9834754b339a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:29 +0000
Subject: [PATCH 18/39] fix: Nelder-Mead must return the best vertex of the
 simplex, not the worst

---
 src/optimization/bounded_nelder_mead.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/optimization/bounded_nelder_mead.cpp b/src/optimization/bounded_nelder_mead.cpp
index b49c05b..777628c 100644
--- a/src/optimization/bounded_nelder_mead.cpp
+++ b/src/optimization/bounded_nelder_mead.cpp
@@ -161,7 +161,7 @@ std::vector<double> BoundedNelderMead::FindOptimalParameters(const std::vector<d
     } while (GetTerminationCriteria(r, function_values, polygon));
 
 
-    size_t best_index = std::distance(function_values.begin(), std::max_element(function_values.begin(), function_values.end()));
+    size_t best_index = std::distance(function_values.begin(), std::min_element(function_values.begin(), function_values.end()));
     return polygon[best_index];
 }
 
-- 
2.43.0


From 3c3f1c0d11a3e809c2403bddf6fc0f904aa59c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:35 +0000
Subject: [PATCH 19/39] fix: Nelder-Mead must evaluate the vertices moved by a
 reduction

---
 src/optimization/bounded_nelder_mead.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/optimization/bounded_nelder_mead.cpp b/src/optimization/bounded_nelder_mead.cpp
index 777628c..f382678 100644
--- a/src/optimization/bounded_nelder_mead.cpp
+++ b/src/optimization/bounded_nelder_mead.cpp
@@ -147,6 +147,7 @@ std::vector<double> BoundedNelderMead::FindOptimalParameters(const std::vector<d
                 if (contraction_point_value > highest_value)
                 {
                     Reduction(&polygon, min_index);
+                    function_values = CountObjectiveFunctionValues(polygon);
                     continue;
                 }
                 else
-- 
2.43.0


From 00321422e8f2bf91ce6e7d2b7ef53aa7589f4721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:40 +0000
Subject: [PATCH 20/39] fix: Nelder-Mead must not compare with polygons of a
 previous run

---
 src/optimization/bounded_nelder_mead.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/optimization/bounded_nelder_mead.cpp b/src/optimization/bounded_nelder_mead.cpp
index f382678..53f9b2f 100644
--- a/src/optimization/bounded_nelder_mead.cpp
+++ b/src/optimization/bounded_nelder_mead.cpp
@@ -74,6 +74,9 @@ std::vector<double> BoundedNelderMead::FindOptimalParameters(const std::vector<d
     //Iteration index
     size_t r = 0;
 
+    //Polygons of another run are of no interest
+    previous_polygons_.clear();
+
     //Build simplex based on initial_parameters
     vector< vector<double> > polygon = GetRegularSimplex(initial_parameters, l_);
 
-- 
2.43.0


From 7910faeadc6ec634fe1ef5d74574dddf5cacc6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:44 +0000
Subject: [PATCH 21/39] fix: simulated annealing must not divide zero by zero
 at zero temperature

---
 src/optimization/simulated_annealing.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/optimization/simulated_annealing.cpp b/src/optimization/simulated_annealing.cpp
index b0ea560..cec148c 100644
--- a/src/optimization/simulated_annealing.cpp
+++ b/src/optimization/simulated_annealing.cpp
@@ -77,7 +77,7 @@ double SimulatedAnnealing::CountAcceptanceProbability(double current_value, doub
         throw std::runtime_error("Negative temperature");
     }
 
-    if (new_value < current_value)
+    if (new_value <= current_value)
     {
         return 1;
     }
-- 
2.43.0


From 8ab381a27d236e57837dd72abca07d7001328551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:48 +0000
Subject: [PATCH 22/39] fix: optimized parameters that violate the constraints
 must be reported

---
 src/optimization/continuous_optimizer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/optimization/continuous_optimizer.cpp b/src/optimization/continuous_optimizer.cpp
index 7d5fe84..41e3a8e 100644
--- a/src/optimization/continuous_optimizer.cpp
+++ b/src/optimization/continuous_optimizer.cpp
@@ -37,6 +37,10 @@ void ContinuousOptimizer::Optimize(const ContinuousObjectiveFunction &function_t
     vector<double> optimal_parameters = this->FindOptimalParameters(initial_values);
 
     parameters_to_optimize_->SetValues(optimal_parameters);
+    if (!parameters_to_optimize_->CheckConstraints())
+    {
+        throw std::logic_error("Parameters found by the optimizer do not satisfy constraints");
+    }
 }
 
 double ContinuousOptimizer::CountObjectiveFunctionValue(const std::vector<double>& parameters) const
-- 
2.43.0


From cdeff93adcc6a24c55e785d2b5e3408a9f983bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:39 +0000
Subject: [PATCH 23/39] fix: a refused put must not leave an empty setting
 behind

---
 include/k52/common/settings_manager.inl | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/k52/common/settings_manager.inl b/include/k52/common/settings_manager.inl
index 85c03d9..2465f5d 100644
--- a/include/k52/common/settings_manager.inl
+++ b/include/k52/common/settings_manager.inl
@@ -33,7 +33,10 @@ template <class PropertyType>
 bool SettingsManager::put(const std::string& property_name, const PropertyType& property_value)
 try
 {
-    property_tree_.put(property_name, property_value);
+    // A value that can not be converted must not leave an empty property behind
+    boost::property_tree::ptree value;
+    value.put_value(property_value);
+    property_tree_.put(property_name, value.data());
     return true;
 }
 catch (...)
-- 
2.43.0


From 18c3a21f6439a0269086381c2bf5eb8f11af4dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:20 +0000
Subject: [PATCH 24/39] fix: merging settings must take names literally, dots
 included

---
 include/k52/common/settings_manager.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/k52/common/settings_manager.h b/include/k52/common/settings_manager.h
index a47208e..148f901 100644
--- a/include/k52/common/settings_manager.h
+++ b/include/k52/common/settings_manager.h
@@ -112,11 +112,11 @@ protected:
             if (merged_tree.end() != found)
             {
                 // Do not overload value of existed property, just add subtrees
-                merged_tree.get_child(it->first) = Merge(found->second, it->second);
+                found->second = Merge(found->second, it->second);
             }
             else
             {
-                merged_tree.put_child(it->first, it->second);
+                merged_tree.push_back(*it); // names are not paths, they may contain dots
             }
         }
         return merged_tree;
-- 
2.43.0


From eb4a9559830f02608a99d02796bcfcd384bbe638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:15 +0000
Subject: [PATCH 25/39] fix: the Akima spline must refuse not-a-number instead
 of reading out of bounds

---
 src/dsp/akima_spline.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dsp/akima_spline.cpp b/src/dsp/akima_spline.cpp
index 1c5401d..40132e7 100644
--- a/src/dsp/akima_spline.cpp
+++ b/src/dsp/akima_spline.cpp
@@ -128,7 +128,7 @@ std::size_t AkimaSpline::ResolveInterval(double x) const
     if (upper_bound == train_x_.end())
     {
         std::vector<double>::const_iterator lower_bound = std::lower_bound(train_x_.begin(), train_x_.end(), x);
-        if (lower_bound == train_x_.end())
+        if (lower_bound == train_x_.end() || *lower_bound != x) // nothing compares with not-a-number
         {
             throw std::out_of_range("X value is out of range in Akima spline");
         }
-- 
2.43.0


From 5f5a84ff2be659691719e1a6826f7f8e9b35bd15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:20 +0000
Subject: [PATCH 26/39] fix: the Akima spline must refuse points that are not
 increasing

---
 src/dsp/akima_spline.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/dsp/akima_spline.cpp b/src/dsp/akima_spline.cpp
index 40132e7..19789c5 100644
--- a/src/dsp/akima_spline.cpp
+++ b/src/dsp/akima_spline.cpp
@@ -37,6 +37,14 @@ void AkimaSpline::Initialize(const std::vector<double>& train_x, const std::vect
         throw std::invalid_argument("The training points are inconsistent");
     }
 
+    for (std::size_t i = 0; i + 1 < train_x.size(); ++i)
+    {
+        if (!(train_x[i] < train_x[i + 1]))
+        {
+            throw std::invalid_argument("Akima spline requires strictly increasing points");
+        }
+    }
+
     train_x_ = train_x;
     train_y_ = train_y;
 
-- 
2.43.0


From c0c79fa93c01c5a7f4ed151bfdbb8bedb5a39728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:50 +0000
Subject: [PATCH 27/39] fix: a spline based wavelet must be defined at the end
 of its effective part

---
 src/dsp/spline_based_wavelet_function.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dsp/spline_based_wavelet_function.cpp b/src/dsp/spline_based_wavelet_function.cpp
index 37f38e3..c29c5d4 100644
--- a/src/dsp/spline_based_wavelet_function.cpp
+++ b/src/dsp/spline_based_wavelet_function.cpp
@@ -30,7 +30,7 @@ void SplineBased::Init(const std::vector<double> &real, const std::vector<double
     points[0] = points[1] - (points[2] - points[1]);
     values[0] = 0;
     int size(points.size());
-    points[size - 1] = points[size - 2] - (points[size - 3] - points[size - 2]);
+    points[size - 1] = 4; // rounding must not leave the end of the effective part out
     values[size - 1] = 0;
 
     spline_->Initialize(points, values);
-- 
2.43.0


From c140d1b91bca741f865df4599a584bb5c3a505e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:54 +0000
Subject: [PATCH 28/39] fix: a spline based wavelet of no points must be
 refused, not read out of bounds

---
 src/dsp/spline_based_wavelet_function.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/dsp/spline_based_wavelet_function.cpp b/src/dsp/spline_based_wavelet_function.cpp
index c29c5d4..eedf062 100644
--- a/src/dsp/spline_based_wavelet_function.cpp
+++ b/src/dsp/spline_based_wavelet_function.cpp
@@ -2,6 +2,7 @@
 
 // standart headers
 #include <algorithm>
+#include <stdexcept>
 #include <stdint.h>
 #include <vector>
 
@@ -17,6 +18,11 @@ std::complex<double> SplineBased::GetValue(double t)
 
 void SplineBased::Init(const std::vector<double> &real, const std::vector<double> &imaj)
 {
+    if (real.empty())
+    {
+        throw std::invalid_argument("A spline based wavelet requires points");
+    }
+
     std::vector<double> points(real.size() + 2);
     double delta = 8. / real.size();
     for (size_t i = 0; i < real.size(); ++i)
-- 
2.43.0


From edadf106e43ce7eeda7853a4f01730c755c48cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:03 +0000
Subject: [PATCH 29/39] fix: a wavelet transformation with no step must be
 refused, not run for ever

---
 include/k52/dsp/cwt.h | 7 +++++++
 src/dsp/cwt.cpp       | 5 +++++
 2 files changed, 12 insertions(+)

diff --git a/include/k52/dsp/cwt.h b/include/k52/dsp/cwt.h
index c1689be..7e7098f 100644
--- a/include/k52/dsp/cwt.h
+++ b/include/k52/dsp/cwt.h
@@ -1,6 +1,8 @@
 #ifndef K52_DSP_CONTINIOUS_WAVELET_TRANSFORMATION_H
 #define K52_DSP_CONTINIOUS_WAVELET_TRANSFORMATION_H
 
+#include <stdexcept>
+
 #include <k52/dsp/wavelet.h>
 
 namespace k52
@@ -14,6 +16,11 @@ std::vector<std::vector<double> > ContiniousWaveletTransformation(const std::vec
                                                                   int step,
                                                                   CallbackUnaryPredicat callback)
 {
+    if (step < 1)
+    {
+        throw std::invalid_argument("step < 1");
+    }
+
     std::vector<std::vector<double> > wavelet_result;
     wavelet_result.reserve(source_data.size());
 
diff --git a/src/dsp/cwt.cpp b/src/dsp/cwt.cpp
index 2717e94..5b78e0a 100644
--- a/src/dsp/cwt.cpp
+++ b/src/dsp/cwt.cpp
@@ -8,6 +8,11 @@ namespace dsp
 std::vector<std::vector<double> > ContiniousWaveletTransformation(const std::vector<double>& source_data,
                                                                   Wavelet::shared_ptr wavelet, int step)
 {
+    if (step < 1)
+    {
+        throw std::invalid_argument("step < 1");
+    }
+
     std::vector<std::vector<double> > wavelet_result;
     wavelet_result.reserve(source_data.size());
 
-- 
2.43.0


From bf548824be3583fb9bd6ede8533dabcc22b5ba2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:47 +0000
Subject: [PATCH 30/39] fix: steepest descent must not round the lengths in its
 line search to whole numbers

---
 src/optimization/steepest_descent_method.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/optimization/steepest_descent_method.cpp b/src/optimization/steepest_descent_method.cpp
index ac7352b..172c49d 100644
--- a/src/optimization/steepest_descent_method.cpp
+++ b/src/optimization/steepest_descent_method.cpp
@@ -243,7 +243,7 @@ double SteepestDescentMethod::FindStepLength(
             break;
         }
 
-    } while ((abs(left_border - right_border) > precision_));
+    } while ((std::abs(left_border - right_border) > precision_));
 
     return (left_border + right_border) / 2;
 }
@@ -263,7 +263,7 @@ double SteepestDescentMethod::Localization(
             point[i] = init_parameters[i] + step*direction[i];
         }       		
     } while ((CountObjectiveFunctionValueToMinimize(point) > CountObjectiveFunctionValueToMinimize(init_parameters))
-        && (abs(step) > precision_));
+        && (std::abs(step) > precision_));
 
 
     vector<double> next_step_point(point);
-- 
2.43.0


From ef6bb1b9aa802a6a31b440cd50fc1f9fce86b9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:25 +0000
Subject: [PATCH 31/39] fix: steepest descent must return the last point it has
 found, not the one before

---
 src/optimization/steepest_descent_method.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/optimization/steepest_descent_method.cpp b/src/optimization/steepest_descent_method.cpp
index 172c49d..7e30120 100644
--- a/src/optimization/steepest_descent_method.cpp
+++ b/src/optimization/steepest_descent_method.cpp
@@ -74,7 +74,8 @@ vector<double> SteepestDescentMethod::FindOptimalParameters(const vector<double>
     double lambda = 1; 
 
     vector<double> next_step_parameters(parameters);
-    do
+    while (!IsExitCriteriaFulfilled(next_step_parameters)
+        && !(counter == max_iteration_number_))
     {
         parameters = next_step_parameters;
         counter++;
@@ -87,11 +88,9 @@ vector<double> SteepestDescentMethod::FindOptimalParameters(const vector<double>
         {
             next_step_parameters[i] = parameters[i] + lambda * invert_gradiend[i];
         }
+    }
 
-    } while (!IsExitCriteriaFulfilled(next_step_parameters) 
-        && !(counter == max_iteration_number_));
-
-    return parameters;
+    return next_step_parameters;
 }
 
 bool SteepestDescentMethod::IsExitCriteriaFulfilled(
-- 
2.43.0


From 75587255c4aa6ee77f40e9e910db89f807c22cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:30 +0000
Subject: [PATCH 32/39] fix: steepest descent must search the whole segment it
 has localized

---
 src/optimization/steepest_descent_method.cpp | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/optimization/steepest_descent_method.cpp b/src/optimization/steepest_descent_method.cpp
index 7e30120..872591e 100644
--- a/src/optimization/steepest_descent_method.cpp
+++ b/src/optimization/steepest_descent_method.cpp
@@ -278,13 +278,8 @@ double SteepestDescentMethod::Localization(
         
     } while (CountObjectiveFunctionValueToMinimize(next_step_point) <= CountObjectiveFunctionValueToMinimize(point));
 
-    double final_step = 0;
-    for (size_t i = 0; i < next_step_point.size(); ++i)
-    {
-        final_step += (next_step_point[i] - init_parameters[i])*(next_step_point[i] - init_parameters[i]);
-    }
-
-    return sqrt(final_step);
+    //The border is counted in lengths of the direction
+    return step;
 }
 
 }//optimization
-- 
2.43.0


From a49a3643d03f8c1235f5ca1c71264f55566357a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:55 +0000
Subject: [PATCH 33/39] fix: conjugate gradients must accept a start that is
 the optimum already

---
 src/optimization/conjugate_gradient_method.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/optimization/conjugate_gradient_method.cpp b/src/optimization/conjugate_gradient_method.cpp
index 0dee546..b5554ff 100644
--- a/src/optimization/conjugate_gradient_method.cpp
+++ b/src/optimization/conjugate_gradient_method.cpp
@@ -79,6 +79,16 @@ vector<double> ConjugateGradientMethod::FindOptimalParameters(
     double exit = 0;
     size_t iteration = 1;
 
+    for (size_t i = 0; i<parameters.size(); i++)
+    {
+        exit += pow(gradient[i], 2);
+    }
+    if (sqrt(exit) < precision_)
+    {
+        //There is no direction to search along
+        return parameters;
+    }
+
     //http://en.wikipedia.org/wiki/Nonlinear_conjugate_gradient_method
     do
     {
-- 
2.43.0


From 2db51c3dab63cac4016eaf8de485b01cee0f1f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:00 +0000
Subject: [PATCH 34/39] fix: conjugate gradients must make as many iterations
 as they are allowed

---
 src/optimization/conjugate_gradient_method.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/optimization/conjugate_gradient_method.cpp b/src/optimization/conjugate_gradient_method.cpp
index b5554ff..929dcdf 100644
--- a/src/optimization/conjugate_gradient_method.cpp
+++ b/src/optimization/conjugate_gradient_method.cpp
@@ -115,12 +115,12 @@ vector<double> ConjugateGradientMethod::FindOptimalParameters(
         }
         exit = sqrt(exit);
 
-        iteration++;
         if (iteration == number_of_iterations_)
         {
             std::cout << "Solution not found" << std::endl;
             break;
         }
+        iteration++;
     } while (exit >= precision_);
 
     return parameters;
-- 
2.43.0


From e60f0ae507cba07fc0e36802e86b3d2745502344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:06 +0000
Subject: [PATCH 35/39] fix: conjugate gradients must go on from a small
 gradient that is not small enough

---
 src/optimization/conjugate_gradient_method.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/optimization/conjugate_gradient_method.cpp b/src/optimization/conjugate_gradient_method.cpp
index 929dcdf..9940e87 100644
--- a/src/optimization/conjugate_gradient_method.cpp
+++ b/src/optimization/conjugate_gradient_method.cpp
@@ -11,11 +11,9 @@
 #include <stdexcept>
 #include <iostream>
 
-#include <k52/common/floating_point.h>
 #include <k52/optimization/params/i_continuous_parameters.h>
 
 using ::std::vector;
-using ::k52::common::FloatingPoint;
 
 namespace k52
 {
@@ -231,7 +229,7 @@ double ConjugateGradientMethod::CalculateWeightingCoefficient(
         previous_gradient_square += pow(previous_gradient[i], 2);
     }
 
-    if(FloatingPoint::IsZero(previous_gradient_square))
+    if(previous_gradient_square == 0)
     {
         throw std::runtime_error("previous_gradient_square == 0");
     }
-- 
2.43.0


From c0ac42946a4a6f3001321c613bdd023b914616c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:59 +0000
Subject: [PATCH 36/39] fix: Mexican hat wavelet function had energy pi instead
 of one

The normalisation divides by pi^(1/4) as well; the factor stood outside
the denominator.
---
 src/dsp/mhat_wavelet_function.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dsp/mhat_wavelet_function.cpp b/src/dsp/mhat_wavelet_function.cpp
index 536aeca..09048ab 100644
--- a/src/dsp/mhat_wavelet_function.cpp
+++ b/src/dsp/mhat_wavelet_function.cpp
@@ -11,7 +11,7 @@ namespace k52
 namespace dsp
 {
 
-MhatWaveletFunction::MhatWaveletFunction() : k_(2./std::sqrt(3. * kDefaultSigma) * std::pow(M_PI, 0.25))
+MhatWaveletFunction::MhatWaveletFunction() : k_(2./(std::sqrt(3. * kDefaultSigma) * std::pow(M_PI, 0.25)))
 {
 }
 
-- 
2.43.0


From 5f3a3f5d411f31f75fefd7fc2820ecbdc7d38c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:29 +0000
Subject: [PATCH 37/39] fix: a foreign task in the middle of a batch must not
 leave answers of the tasks before it to the next batch

---
 src/parallel/mpi/mpi_worker_pool.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/parallel/mpi/mpi_worker_pool.cpp b/src/parallel/mpi/mpi_worker_pool.cpp
index 2eaaae2..b22b2ca 100644
--- a/src/parallel/mpi/mpi_worker_pool.cpp
+++ b/src/parallel/mpi/mpi_worker_pool.cpp
@@ -62,6 +62,13 @@ std::vector< ITaskResult::shared_ptr > MpiWorkerPool::DoTasks (const std::vector
     std::list<ResultExpectation> result_expectations;
     std::vector< ITaskResult::shared_ptr > results(tasks.size());
 
+    //Nothing is sent unless every task can be: the answers to the tasks sent before
+    //an exception would be taken for the answers to the tasks of the next call
+    for(size_t i = 0; i < tasks.size(); i++)
+    {
+        GetMpiTask(tasks[i]);
+    }
+
     for(size_t i = 0; i < tasks.size(); i++)
     {
         const IMpiTask* current_task = GetMpiTask(tasks[i]);
-- 
2.43.0


From fb288f0eda9f101ee66c6e809998e406e0c3b1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:19 +0000
Subject: [PATCH 38/39] fix: a task throwing something other than an
 std::exception must not end the process

---
 src/parallel/thread/worker.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/parallel/thread/worker.h b/src/parallel/thread/worker.h
index 68d7e82..19b1110 100644
--- a/src/parallel/thread/worker.h
+++ b/src/parallel/thread/worker.h
@@ -64,10 +64,19 @@ void Worker<TTask>::ProcessTasksQueue(ThreadSafeQueue<TTask>* tasks_to_do, Threa
             {
                 to_do.DoTask();
             }
+            catch(const boost::thread_interrupted&)
+            {
+                throw;
+            }
             catch(const std::exception& ex)
             {
                 std::cout << "Incorrect task: " << ex.what() <<std::endl;
             }
+            catch(...)
+            {
+                //Not an std::exception: it would end the whole process
+                std::cout << "Incorrect task: unknown exception" << std::endl;
+            }
             //A failed task is over too, the one waiting for it must be told so
             done_tasks->Push(to_do);
         }
-- 
2.43.0


From a039f8a22c29473414b8b254d1086532629a7361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:45:43 +0000
Subject: [PATCH 39/39] fix: GridSearch did not implement IOptimizer's Optimize
 and could not be instantiated

---
 include/k52/optimization/grid_search.h | 5 +++--
 src/optimization/grid_search.cpp       | 8 +++++---
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/k52/optimization/grid_search.h b/include/k52/optimization/grid_search.h
index 5f052b6..3a9c57d 100644
--- a/include/k52/optimization/grid_search.h
+++ b/include/k52/optimization/grid_search.h
@@ -20,7 +20,8 @@ public:
 
     virtual void Optimize(
         const IObjectiveFunction& function_to_optimize,
-        IParameters* parameters_to_optimize);
+        IParameters* parameters_to_optimize,
+        bool maximize);
 
     ///Creates deep clone of an object with resource allocation. See ICloneable
     ///@return deep clone of an object
@@ -31,7 +32,7 @@ public:
 #ifdef BUILD_WITH_MPI
     virtual void Send(boost::mpi::communicator* communicator, int target) const;
 
-    virtual void Receive(boost::mpi::communicator* communicator);
+    virtual void Receive(boost::mpi::communicator* communicator, int source);
 #endif
 
 protected:
diff --git a/src/optimization/grid_search.cpp b/src/optimization/grid_search.cpp
index 90caa05..826993b 100644
--- a/src/optimization/grid_search.cpp
+++ b/src/optimization/grid_search.cpp
@@ -23,7 +23,7 @@ GridSearch::GridSearch(double precision, double lower_bound, double upper_bound)
     precision_ = precision;
 }
 
-void GridSearch::Optimize(const IObjectiveFunction& function_to_optimize, IParameters* parameters_to_optimize)
+void GridSearch::Optimize(const IObjectiveFunction& function_to_optimize, IParameters* parameters_to_optimize, bool maximize)
 {
     IContinuousParameters* continuous_parameters = dynamic_cast<IContinuousParameters*> (parameters_to_optimize);
     if(!continuous_parameters)
@@ -64,7 +64,9 @@ void GridSearch::Optimize(const IObjectiveFunction& function_to_optimize, IParam
     }
 
     vector<double> counted_values = fitness_counter_->CountObjectiveFunctionValues(parameters, function_to_optimize);
-    size_t best_index = std::distance(counted_values.begin(), max_element(counted_values.begin(), counted_values.end()));
+    size_t best_index = std::distance(counted_values.begin(), maximize
+        ? max_element(counted_values.begin(), counted_values.end())
+        : min_element(counted_values.begin(), counted_values.end()));
 
     continuous_parameters->SetValues( parameters_storages[best_index]->GetValues() );
 }
@@ -85,7 +87,7 @@ void GridSearch::Send(boost::mpi::communicator* communicator, int target) const
     throw std::logic_error("Send is not implemented for GridSearch");
 }
 
-void GridSearch::Receive(boost::mpi::communicator* communicator)
+void GridSearch::Receive(boost::mpi::communicator* communicator, int source)
 {
     throw std::logic_error("Receive is not implemented for GridSearch");
 }
-- 
2.43.0

