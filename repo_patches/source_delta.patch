From c542b946316d79e428da26b6ba4194056af19d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:20 +0000
Subject: [PATCH 01/32] fix: key and fill remembered results with argument
 values, restore output arguments

The remembered calls were keyed with references to the caller's variables,
the pressure returned through a reference was lost when an answer was
remembered, NaN arguments broke the order of the keys and a full cache
evicted entries on hits.
---
 ThermoFun/OptimizationUtils.h | 73 ++++++++++++++++++++++++-----------
 1 file changed, 51 insertions(+), 22 deletions(-)

diff --git a/ThermoFun/OptimizationUtils.h b/ThermoFun/OptimizationUtils.h
index b6cea7a..876ae45 100644
--- a/ThermoFun/OptimizationUtils.h
+++ b/ThermoFun/OptimizationUtils.h
@@ -8,16 +8,28 @@
 
 namespace ThermoFun {
 
+/// The values of the arguments of one call, also of those passed by reference
+template <typename... Args>
+using MemoizeKey = std::tuple<typename std::decay<Args>::type...>;
+
 template <typename Ret, typename... Args>
 auto memoize(std::function<Ret(Args...)> f) -> std::function<Ret(Args...)>
 {
-    auto cache = std::make_shared<std::map<std::tuple<Args...>, Ret>>();
+    using Key = MemoizeKey<Args...>;
+    // the result and the arguments as the call left them (arguments passed by reference may be outputs)
+    auto cache = std::make_shared<std::map<Key, std::pair<Ret, Key>>>();
     return [=](Args... args) mutable -> Ret
     {
-        std::tuple<Args...> t(args...);
-        if(cache->find(t) == cache->end())
-            (*cache)[t] = f(args...);
-        return (*cache)[t];
+        Key t(args...);
+        if(!(t == t))   // not a number, can not be ordered
+            return f(args...);
+        auto it = cache->find(t);
+        if(it == cache->end()) {
+            Ret result = f(args...);
+            it = cache->emplace(t, std::make_pair(result, Key(args...))).first;
+        }
+        std::tie(args...) = it->second.second;
+        return it->second.first;
     };
 }
 
@@ -52,29 +64,46 @@ auto dereference(const std::shared_ptr<std::function<Ret(Args...)>>& f) -> std::
 template <typename Ret, typename... Args>
 auto memoizeN(std::function<Ret(Args...)> f, size_t max_cache_size) -> std::function<Ret(Args...)>
 {
-    auto cache = std::make_shared<std::map<std::tuple<Args...>, Ret>>();
-    std::list<std::tuple<Args...>> usage_order; // List to track the order of usage for LRU cache management
+    using Key = MemoizeKey<Args...>;
+    struct Cache
+    {
+        // the result and the arguments as the call left them (arguments passed by reference may be outputs)
+        std::map<Key, std::pair<Ret, Key>> results;
+        std::list<Key> usage_order; // List to track the order of usage for cache management
+    };
+    auto cache = std::make_shared<Cache>();
 
     return [=](Args... args) mutable -> Ret
     {
-        std::tuple<Args...> t(args...); // Create a tuple key from the arguments
-
-        // Check cache size and evict the least recently used item if necessary before adding
-        if (cache->size() >= max_cache_size) {
-            if (!usage_order.empty()) {
-                std::tuple<Args...> lru_t = usage_order.back(); // Get the least recently used key
-                usage_order.pop_back();                           // Remove from usage order
-                cache->erase(lru_t);                             // Remove from cache
-            }
-        }
+        Key t(args...); // Create a tuple key from the arguments
+        if (!(t == t))  // not a number, can not be ordered
+            return f(args...);
 
         // Check if result is already in cache
-        if (cache->find(t) == cache->end()) { // t not found; compute the result
-            (*cache)[t] = f(args...); // Cache the result
-            usage_order.push_front(t); // Track the usage order
+        auto it = cache->results.find(t);
+        if (it == cache->results.end()) { // t not found; compute the result
+            Ret result = f(args...);
+
+            // Check cache size and evict the oldest items if necessary before adding
+            while (cache->results.size() >= max_cache_size && !cache->usage_order.empty()) {
+                cache->results.erase(cache->usage_order.back());
+                cache->usage_order.pop_back();
+            }
+            cache->usage_order.push_front(t); // Track the usage order
+            bool added = false;
+            try {
+                std::tie(it, added) = cache->results.emplace(t, std::make_pair(result, Key(args...))); // Cache the result
+            }
+            catch (...) {
+                cache->usage_order.pop_front();
+                throw;
+            }
+            if (!added)
+                cache->usage_order.pop_front();
         }
-        
-        return (*cache)[t]; // Return the cached result
+
+        std::tie(args...) = it->second.second;
+        return it->second.first; // Return the cached result
     };
 }
 
-- 
2.43.0


From 7e297abef4de1c4cebd4a28b508686491d35d37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:22 +0000
Subject: [PATCH 02/32] fix: restore the gas pressure correction preference on
 every exit and keep results of both settings apart

---
 ThermoFun/ThermoEngine.cpp | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/ThermoFun/ThermoEngine.cpp b/ThermoFun/ThermoEngine.cpp
index 57ebee0..b094c36 100644
--- a/ThermoFun/ThermoEngine.cpp
+++ b/ThermoFun/ThermoEngine.cpp
@@ -46,8 +46,22 @@ struct WorkPreferences
     bool isReacFromReactants = false;
 };
 
+/// Sets a value for the duration of a calculation, the previous one is back afterwards, also when the calculation fails
+struct ScopedFlag
+{
+    bool &flag;
+    const bool previous;
+
+    ScopedFlag(bool &flag_, bool value) : flag(flag_), previous(flag_) { flag = value; }
+    ~ScopedFlag() { flag = previous; }
+
+    ScopedFlag(const ScopedFlag &) = delete;
+    ScopedFlag &operator=(const ScopedFlag &) = delete;
+};
+
+/// The last argument tells whether the pressure correction is applied to the properties of gases
 using ThermoPropertiesSubstanceFunction =
-    std::function<ThermoPropertiesSubstance(double, double, double &, std::string)>;
+    std::function<ThermoPropertiesSubstance(double, double, double &, std::string, bool)>;
 
 using ElectroPropertiesSolventFunction =
     std::function<ElectroPropertiesSolvent(double, double, double &, std::string, int)>;
@@ -90,7 +104,7 @@ struct ThermoEngine::Impl
 
     void set_fn()
     {
-        thermo_properties_substance_fn = [=, this](double T, double P_, double &P, std::string symbol) {
+        thermo_properties_substance_fn = [=, this](double T, double P_, double &P, std::string symbol, bool) {
             auto x = P_;
             return thermoPropertiesSubstance(T, P, symbol);
         };
@@ -323,10 +337,10 @@ struct ThermoEngine::Impl
                 {
                     double Pr = database.getSubstance(preferences.solvent_symbol).referenceP();
                     double Tr = database.getSubstance(preferences.solvent_symbol).referenceT();
-                    tps = SoluteAkinfievDiamondEOS(pref.workSubstance).thermoProperties(T, P, tps, thermo_properties_substance_fn(T, P, P, preferences.solvent_symbol),
+                    tps = SoluteAkinfievDiamondEOS(pref.workSubstance).thermoProperties(T, P, tps, thermo_properties_substance_fn(T, P, P, preferences.solvent_symbol, preferences.apply_pressure_correction_to_gas_props),
                                                                                         WaterIdealGasWoolley(database.getSubstance(preferences.solvent_symbol)).thermoProperties(T, P),
                                                                                         properties_solvent_fn(T, P, P, preferences.solvent_symbol, -1),
-                                                                                        thermo_properties_substance_fn(Tr, Pr, Pr, preferences.solvent_symbol),
+                                                                                        thermo_properties_substance_fn(Tr, Pr, Pr, preferences.solvent_symbol, preferences.apply_pressure_correction_to_gas_props),
                                                                                         WaterIdealGasWoolley(database.getSubstance(preferences.solvent_symbol)).thermoProperties(Tr, Pr),
                                                                                         properties_solvent_fn(Tr, Pr, Pr, preferences.solvent_symbol, -1));
                     break;
@@ -589,7 +603,7 @@ struct ThermoEngine::Impl
         std::map<std::string, double> reactants;
 
         // if reaction involves gases we switch on the P correction to the thermo props
-        preferences.apply_pressure_correction_to_gas_props = true;
+        ScopedFlag pressure_correction(preferences.apply_pressure_correction_to_gas_props, true);
 
         if (!reactionSymbol.empty())
         {
@@ -612,7 +626,7 @@ struct ThermoEngine::Impl
             {
                 if (reactant.first != subst.symbol())
                 {
-                    reacTps = thermo_properties_substance_fn(T, P, P, reactant.first); /* thermoPropertiesSubstance(T, P, reactant.first);*/
+                    reacTps = thermo_properties_substance_fn(T, P, P, reactant.first, preferences.apply_pressure_correction_to_gas_props); /* thermoPropertiesSubstance(T, P, reactant.first);*/
                     tps.enthalpy -= reacTps.enthalpy * reactant.second;
                     tps.entropy -= reacTps.entropy * reactant.second;
                     tps.gibbs_energy -= reacTps.gibbs_energy * reactant.second;
@@ -640,8 +654,6 @@ struct ThermoEngine::Impl
             errorReactionNotDefined(subst.symbol(), __LINE__, __FILE__);
         }
 
-        preferences.apply_pressure_correction_to_gas_props = false;
-
         // pressure correction on rdc assuming constant molar volume
         if ((subst.method_P() == MethodCorrP_Thrift::type::CPM_CON) &&
             (reaction.method_P()== MethodCorrP_Thrift::CPM_OFF || !reaction.method_P()))
@@ -793,7 +805,7 @@ struct ThermoEngine::Impl
         tpr.reaction_internal_energy = 0.0;
         tpr.reaction_helmholtz_energy = 0.0;
 
-        preferences.apply_pressure_correction_to_gas_props = true;
+        ScopedFlag pressure_correction(preferences.apply_pressure_correction_to_gas_props, true);
 
         std::string message = "Calculated from the reaction components: " + reaction.symbol() + "; ";
 
@@ -809,7 +821,7 @@ struct ThermoEngine::Impl
                 errorMethodNotFound("reaction", reaction.symbol(), __LINE__, __FILE__);
             }
 
-            auto tps        = thermo_properties_substance_fn(T, P,P, substance); /*thermoPropertiesSubstance(T, P, substance);*/
+            auto tps        = thermo_properties_substance_fn(T, P,P, substance, preferences.apply_pressure_correction_to_gas_props); /*thermoPropertiesSubstance(T, P, substance);*/
 
             tpr.reaction_heat_capacity_cp   += tps.heat_capacity_cp*coeff;
             tpr.reaction_gibbs_energy       += tps.gibbs_energy*coeff;
@@ -831,7 +843,6 @@ struct ThermoEngine::Impl
             setMessage(tps.gibbs_energy.sta.first,     "G0 of component " + substance, message+tps.gibbs_energy.sta.second,     tpr.ln_equilibrium_constant.sta.second);
         }
 
-        preferences.apply_pressure_correction_to_gas_props = false;
         return tpr;
     }
 };
@@ -855,7 +866,7 @@ ThermoEngine::ThermoEngine(const ThermoEngine &other)
 
 auto ThermoEngine::thermoPropertiesSubstance(double T, double &P, std::string substance) const -> ThermoPropertiesSubstance
 {
-    return pimpl->thermo_properties_substance_fn(T, P, P, substance);
+    return pimpl->thermo_properties_substance_fn(T, P, P, substance, pimpl->preferences.apply_pressure_correction_to_gas_props);
 }
 
 auto ThermoEngine::electroPropertiesSolvent(double T, double &P, std::string solvent, int state) const -> ElectroPropertiesSolvent
-- 
2.43.0


From 745a04f92a33b88b80146af6a84c679615e2e4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:22 +0000
Subject: [PATCH 03/32] fix: copied and assigned engines are independent of
 their source

---
 ThermoFun/ThermoEngine.cpp | 13 +++++++++++++
 ThermoFun/ThermoEngine.h   |  3 +++
 2 files changed, 16 insertions(+)

diff --git a/ThermoFun/ThermoEngine.cpp b/ThermoFun/ThermoEngine.cpp
index b094c36..fb48857 100644
--- a/ThermoFun/ThermoEngine.cpp
+++ b/ThermoFun/ThermoEngine.cpp
@@ -102,6 +102,13 @@ struct ThermoEngine::Impl
         set_fn();
     }
 
+    /// The functions of the copy have to refer to the copy and not to the source
+    Impl(const Impl &other)
+        : database(other.database), preferences(other.preferences), conventions(other.conventions)
+    {
+        set_fn();
+    }
+
     void set_fn()
     {
         thermo_properties_substance_fn = [=, this](double T, double P_, double &P, std::string symbol, bool) {
@@ -864,6 +871,12 @@ ThermoEngine::ThermoEngine(const ThermoEngine &other)
 {
 }
 
+auto ThermoEngine::operator=(ThermoEngine other) -> ThermoEngine&
+{
+    pimpl = std::move(other.pimpl);
+    return *this;
+}
+
 auto ThermoEngine::thermoPropertiesSubstance(double T, double &P, std::string substance) const -> ThermoPropertiesSubstance
 {
     return pimpl->thermo_properties_substance_fn(T, P, P, substance, pimpl->preferences.apply_pressure_correction_to_gas_props);
diff --git a/ThermoFun/ThermoEngine.h b/ThermoFun/ThermoEngine.h
index ec968b4..4892c72 100644
--- a/ThermoFun/ThermoEngine.h
+++ b/ThermoFun/ThermoEngine.h
@@ -63,6 +63,9 @@ public:
     /// Construct a copy of an ThermoEngine instance
     ThermoEngine(const ThermoEngine &other);
 
+    /// Assign another ThermoEngine instance to this
+    auto operator=(ThermoEngine other) -> ThermoEngine&;
+
     /// Sets the symbol of the solvent which is used to calculate properties using the thermo instance
     auto setSolventSymbol(const std::string solvent_symbol) -> void;
 
-- 
2.43.0


From a4cac2dff143214f85d12940f2a265335545f372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:05 +0000
Subject: [PATCH 04/32] fix: changed settings and data take effect from the
 next query, the user's solvent symbol is kept

---
 ThermoFun/ThermoEngine.cpp | 108 +++++++++++++++++++++++++------------
 1 file changed, 75 insertions(+), 33 deletions(-)

diff --git a/ThermoFun/ThermoEngine.cpp b/ThermoFun/ThermoEngine.cpp
index fb48857..0d45fca 100644
--- a/ThermoFun/ThermoEngine.cpp
+++ b/ThermoFun/ThermoEngine.cpp
@@ -83,6 +83,10 @@ struct ThermoEngine::Impl
 
     mutable EngineConventions conventions;
 
+    /// The settings the remembered results were calculated with
+    EnginePreferences used_preferences;
+    EngineConventions used_conventions;
+
     ThermoPropertiesSubstanceFunction thermo_properties_substance_fn;
 
     ElectroPropertiesSolventFunction electro_properties_solvent_fn;
@@ -147,6 +151,41 @@ struct ThermoEngine::Impl
         }
     }
 
+    /// Forget the remembered results if the settings were changed since they were calculated
+    void refresh()
+    {
+        if (preferences.enable_memoize == used_preferences.enable_memoize &&
+            preferences.max_cache_size == used_preferences.max_cache_size &&
+            preferences.solvent_symbol == used_preferences.solvent_symbol &&
+            preferences.fallback_to_reference_properties == used_preferences.fallback_to_reference_properties &&
+            preferences.apply_pressure_correction_to_gas_props == used_preferences.apply_pressure_correction_to_gas_props &&
+            conventions.apparent_properties == used_conventions.apparent_properties &&
+            conventions.water_properties == used_conventions.water_properties)
+            return;
+
+        // everything that can fail first
+        EnginePreferences new_preferences = preferences;
+        EngineConventions new_conventions = conventions;
+        set_fn();
+        used_preferences = std::move(new_preferences);
+        used_conventions = std::move(new_conventions);
+    }
+
+    /// The symbol of the solvent used in calculations: the one set by the user if it is
+    /// in the database, otherwise a solvent found in the database
+    auto solventSymbol() const -> std::string
+    {
+        if (database.containsSubstance(preferences.solvent_symbol))
+            return preferences.solvent_symbol;
+
+        const auto& substances = database.mapSubstances();
+        for (auto it = substances.rbegin(); it != substances.rend(); ++it) {
+            if (it->second.substanceClass() == SubstanceClass::type::AQSOLVENT)
+                return it->first;
+        }
+        return preferences.solvent_symbol;
+    }
+
     auto toSteamTables(ThermoPropertiesSubstance &tps, WaterTripleProperties wat) const -> void
     {
         tps.gibbs_energy -= wat.Gtr;
@@ -230,20 +269,6 @@ struct ThermoEngine::Impl
         else
             workPreferences.isReacDC = false;
 
-        // check if substance is aq solute and needs a solvent
-        if (workPreferences.workSubstance.substanceClass() == SubstanceClass::type::AQSOLUTE)
-        {
-            // see if default solvent is in the database if not search for solvent
-            if (!database.containsSubstance(preferences.solvent_symbol))
-            {
-                for (const auto& pair : database.mapSubstances()) {
-                    if (pair.second.substanceClass() == SubstanceClass::type::AQSOLVENT) {
-                        preferences.solvent_symbol = pair.first;
-                    }
-                }
-            }
-        }
-
         return workPreferences;
     }
 
@@ -289,26 +314,26 @@ struct ThermoEngine::Impl
                 }
                 case MethodGenEoS_Thrift::type::CTPM_HKF:
                 {
-                    tps = SoluteHKFgems(pref.workSubstance).thermoProperties(T, P, properties_solvent_fn(T, P, P, preferences.solvent_symbol, -1), electro_properties_solvent_fn(T, P, P, preferences.solvent_symbol, -1));
+                    tps = SoluteHKFgems(pref.workSubstance).thermoProperties(T, P, properties_solvent_fn(T, P, P, solventSymbol(), -1), electro_properties_solvent_fn(T, P, P, solventSymbol(), -1));
                     break;
                 }
                 case MethodGenEoS_Thrift::type::CTPM_HKFR:
                 {
-                    tps = SoluteHKFreaktoro(pref.workSubstance).thermoProperties(T, P, properties_solvent_fn(T, P, P, preferences.solvent_symbol, -1), electro_properties_solvent_fn(T, P, P, preferences.solvent_symbol, -1));
+                    tps = SoluteHKFreaktoro(pref.workSubstance).thermoProperties(T, P, properties_solvent_fn(T, P, P, solventSymbol(), -1), electro_properties_solvent_fn(T, P, P, solventSymbol(), -1));
                     break;
                 }
                 case MethodGenEoS_Thrift::type::CTPM_HP98:
                 {
-                    double Pr = database.getSubstance(preferences.solvent_symbol).referenceP();
-                    double Tr = database.getSubstance(preferences.solvent_symbol).referenceT();
-                    tps = SoluteHollandPowell98(pref.workSubstance).thermoProperties(T, P, properties_solvent_fn(Tr, Pr, Pr, preferences.solvent_symbol, -1), properties_solvent_fn(T, P, P, preferences.solvent_symbol, -1));
+                    double Pr = database.getSubstance(solventSymbol()).referenceP();
+                    double Tr = database.getSubstance(solventSymbol()).referenceT();
+                    tps = SoluteHollandPowell98(pref.workSubstance).thermoProperties(T, P, properties_solvent_fn(Tr, Pr, Pr, solventSymbol(), -1), properties_solvent_fn(T, P, P, solventSymbol(), -1));
                     break;
                 }
                 case MethodGenEoS_Thrift::type::CTPM_AN91:
                 {
-                    double Pr = database.getSubstance(preferences.solvent_symbol).referenceP();
-                    double Tr = database.getSubstance(preferences.solvent_symbol).referenceT();
-                    tps = SoluteAnderson91(pref.workSubstance).thermoProperties(T, P, properties_solvent_fn(Tr, Pr, Pr, preferences.solvent_symbol, -1), properties_solvent_fn(T, P, P, preferences.solvent_symbol, -1));
+                    double Pr = database.getSubstance(solventSymbol()).referenceP();
+                    double Tr = database.getSubstance(solventSymbol()).referenceT();
+                    tps = SoluteAnderson91(pref.workSubstance).thermoProperties(T, P, properties_solvent_fn(Tr, Pr, Pr, solventSymbol(), -1), properties_solvent_fn(T, P, P, solventSymbol(), -1));
                     break;
                 }
                     //                default:
@@ -342,14 +367,14 @@ struct ThermoEngine::Impl
                 {
                 case MethodCorrP_Thrift::type::CPM_AKI:
                 {
-                    double Pr = database.getSubstance(preferences.solvent_symbol).referenceP();
-                    double Tr = database.getSubstance(preferences.solvent_symbol).referenceT();
-                    tps = SoluteAkinfievDiamondEOS(pref.workSubstance).thermoProperties(T, P, tps, thermo_properties_substance_fn(T, P, P, preferences.solvent_symbol, preferences.apply_pressure_correction_to_gas_props),
-                                                                                        WaterIdealGasWoolley(database.getSubstance(preferences.solvent_symbol)).thermoProperties(T, P),
-                                                                                        properties_solvent_fn(T, P, P, preferences.solvent_symbol, -1),
-                                                                                        thermo_properties_substance_fn(Tr, Pr, Pr, preferences.solvent_symbol, preferences.apply_pressure_correction_to_gas_props),
-                                                                                        WaterIdealGasWoolley(database.getSubstance(preferences.solvent_symbol)).thermoProperties(Tr, Pr),
-                                                                                        properties_solvent_fn(Tr, Pr, Pr, preferences.solvent_symbol, -1));
+                    double Pr = database.getSubstance(solventSymbol()).referenceP();
+                    double Tr = database.getSubstance(solventSymbol()).referenceT();
+                    tps = SoluteAkinfievDiamondEOS(pref.workSubstance).thermoProperties(T, P, tps, thermo_properties_substance_fn(T, P, P, solventSymbol(), preferences.apply_pressure_correction_to_gas_props),
+                                                                                        WaterIdealGasWoolley(database.getSubstance(solventSymbol())).thermoProperties(T, P),
+                                                                                        properties_solvent_fn(T, P, P, solventSymbol(), -1),
+                                                                                        thermo_properties_substance_fn(Tr, Pr, Pr, solventSymbol(), preferences.apply_pressure_correction_to_gas_props),
+                                                                                        WaterIdealGasWoolley(database.getSubstance(solventSymbol())).thermoProperties(Tr, Pr),
+                                                                                        properties_solvent_fn(Tr, Pr, Pr, solventSymbol(), -1));
                     break;
                 }
                 case MethodCorrP_Thrift::type::CPM_CEH:
@@ -722,17 +747,17 @@ struct ThermoEngine::Impl
             }
             case MethodCorrT_Thrift::type::CTM_DMD: // Dolejs-Maning 2010 density model
             {
-                tpr = ReactionDolejsManning10(pref.workReaction).thermoProperties(T, P, properties_solvent_fn(T, P, P, preferences.solvent_symbol, -1));
+                tpr = ReactionDolejsManning10(pref.workReaction).thermoProperties(T, P, properties_solvent_fn(T, P, P, solventSymbol(), -1));
                 break;
             }
             case MethodCorrT_Thrift::type::CTM_DKR: // Marshall-Franck density model
             {
-                tpr = ReactionFrantzMarshall(pref.workReaction).thermoProperties(T, P, properties_solvent_fn(T, P, P, preferences.solvent_symbol, -1));
+                tpr = ReactionFrantzMarshall(pref.workReaction).thermoProperties(T, P, properties_solvent_fn(T, P, P, solventSymbol(), -1));
                 break;
             }
             case MethodCorrT_Thrift::type::CTM_MRB: // Calling modified Ryzhenko-Bryzgalin model TW KD 08.2007
             {
-                return ReactionRyzhenkoBryzgalin(pref.workReaction).thermoProperties(T, P, properties_solvent_fn(T, P, P, preferences.solvent_symbol, -1)); // NOT TESTED!!!
+                return ReactionRyzhenkoBryzgalin(pref.workReaction).thermoProperties(T, P, properties_solvent_fn(T, P, P, solventSymbol(), -1)); // NOT TESTED!!!
             }
             case MethodCorrT_Thrift::type::CTM_IKZ:
             {
@@ -879,52 +904,62 @@ auto ThermoEngine::operator=(ThermoEngine other) -> ThermoEngine&
 
 auto ThermoEngine::thermoPropertiesSubstance(double T, double &P, std::string substance) const -> ThermoPropertiesSubstance
 {
+    pimpl->refresh();
     return pimpl->thermo_properties_substance_fn(T, P, P, substance, pimpl->preferences.apply_pressure_correction_to_gas_props);
 }
 
 auto ThermoEngine::electroPropertiesSolvent(double T, double &P, std::string solvent, int state) const -> ElectroPropertiesSolvent
 {
+    pimpl->refresh();
     return pimpl->electro_properties_solvent_fn(T, P, P, solvent, state);
 }
 
 auto ThermoEngine::propertiesSolvent(double T, double &P, std::string solvent, int state) const -> PropertiesSolvent
 {
+    pimpl->refresh();
     return pimpl->properties_solvent_fn(T, P, P, solvent, state);
 }
 
 auto ThermoEngine::thermoPropertiesSubstance(double T, double &P, const Substance& substance) const -> ThermoPropertiesSubstance
 {
+    pimpl->refresh();
     return pimpl->thermoPropertiesSubstance(T, P, substance);
 }
 
 auto ThermoEngine::electroPropertiesSolvent(double T, double &P, const Substance&  solvent, int state) const -> ElectroPropertiesSolvent
 {
+    pimpl->refresh();
     return pimpl->electroPropertiesSolvent(T, P, solvent, state);
 }
 
 auto ThermoEngine::propertiesSolvent(double T, double &P, const Substance&  solvent, int state) const -> PropertiesSolvent
 {
+    pimpl->refresh();
     return pimpl->propertiesSolvent(T, P, solvent, state);
 }
 
 // Reaction
 auto ThermoEngine::thermoPropertiesReaction(double T, double &P, std::string reaction) const -> ThermoPropertiesReaction
 {
+    pimpl->refresh();
     return pimpl->thermo_properties_reaction_fn(T, P, P, reaction);
 }
 
 auto ThermoEngine::thermoPropertiesReactionFromReactants(double T, double &P, std::string symbol) const -> ThermoPropertiesReaction
 {
+    pimpl->refresh();
     return pimpl->thermoPropertiesReactionFromReactants(T, P, symbol);
 }
 
 auto ThermoEngine::thermoPropertiesReaction(double T, double &P, const Reaction& reaction) const -> ThermoPropertiesReaction
 {
+    pimpl->refresh();
     return pimpl->thermoPropertiesReaction(T, P, reaction);
 }
 
 auto ThermoEngine::thermoPropertiesReactionFromReactants(double T, double &P, const Reaction& reaction) const -> ThermoPropertiesReaction
 {
+    pimpl->refresh();
     return pimpl->thermoPropertiesReactionFromReactants(T, P, reaction);
 }
 
@@ -933,6 +968,11 @@ auto ThermoEngine::setSolventSymbol(const std::string solvent_symbol) -> void
     pimpl->preferences.solvent_symbol = solvent_symbol;
 }
 
+auto ThermoEngine::setPreferences(const EnginePreferences preferences) -> void
+{
+    pimpl->preferences = preferences;
+}
+
 auto ThermoEngine::solventSymbol() -> std::string&
 {
     return pimpl->preferences.solvent_symbol;
@@ -953,11 +993,13 @@ auto ThermoEngine::database() const -> const Database &
 
 auto ThermoEngine::appendData(std::string filename) -> void
 {
+    pimpl->set_fn();
     pimpl->database.appendData(filename);
 }
 
 auto ThermoEngine::appendData(std::vector<std::string> jsonRecords, std::string _label = "unknown label") -> void
 {
+    pimpl->set_fn();
     pimpl->database.appendData(jsonRecords, _label);
 }
 
-- 
2.43.0


From d5d694fb143bf79e44de6d32d6942d4dee75d1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:09 +0000
Subject: [PATCH 05/32] fix: raise an error for substances defined by
 themselves through their reactions

---
 ThermoFun/ThermoEngine.cpp | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/ThermoFun/ThermoEngine.cpp b/ThermoFun/ThermoEngine.cpp
index 0d45fca..c092e55 100644
--- a/ThermoFun/ThermoEngine.cpp
+++ b/ThermoFun/ThermoEngine.cpp
@@ -13,6 +13,7 @@
 
 #include "OptimizationUtils.h"
 #include <functional>
+#include <set>
 
 namespace ThermoFun
 {
@@ -59,6 +60,21 @@ struct ScopedFlag
     ScopedFlag &operator=(const ScopedFlag &) = delete;
 };
 
+/// Keeps a symbol in a set for the duration of a calculation
+struct ScopedSymbol
+{
+    std::set<std::string> &symbols;
+    const std::string symbol;
+    const bool added;
+
+    ScopedSymbol(std::set<std::string> &symbols_, const std::string &symbol_)
+        : symbols(symbols_), symbol(symbol_), added(symbols_.insert(symbol_).second) {}
+    ~ScopedSymbol() { if (added) symbols.erase(symbol); }
+
+    ScopedSymbol(const ScopedSymbol &) = delete;
+    ScopedSymbol &operator=(const ScopedSymbol &) = delete;
+};
+
 /// The last argument tells whether the pressure correction is applied to the properties of gases
 using ThermoPropertiesSubstanceFunction =
     std::function<ThermoPropertiesSubstance(double, double, double &, std::string, bool)>;
@@ -83,6 +99,9 @@ struct ThermoEngine::Impl
 
     mutable EngineConventions conventions;
 
+    /// The symbols of the substances whose properties are being calculated from their reactions
+    mutable std::set<std::string> substances_from_reaction;
+
     /// The settings the remembered results were calculated with
     EnginePreferences used_preferences;
     EngineConventions used_conventions;
@@ -634,6 +653,11 @@ struct ThermoEngine::Impl
         Reaction reaction;
         std::map<std::string, double> reactants;
 
+        // a substance can not be defined by itself, also not by way of other reactions
+        ScopedSymbol in_calculation(substances_from_reaction, subst.symbol());
+        if (!in_calculation.added)
+            errorReactionNotDefined(subst.symbol() + " (defined by itself)", __LINE__, __FILE__);
+
         // if reaction involves gases we switch on the P correction to the thermo props
         ScopedFlag pressure_correction(preferences.apply_pressure_correction_to_gas_props, true);
 
-- 
2.43.0


From 5a37a2b89d1bc4d20c273684144c6fc85c5d6bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:18 +0000
Subject: [PATCH 06/32] fix: fields missing in a record do not take leftover
 memory contents or the value of another field

---
 ThermoFun/Common/ParseJsonToData.cpp | 11 +++++++----
 ThermoFun/ThermoParameters.h         |  6 +++---
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/ThermoFun/Common/ParseJsonToData.cpp b/ThermoFun/Common/ParseJsonToData.cpp
index 2be4ad0..bdf90b0 100644
--- a/ThermoFun/Common/ParseJsonToData.cpp
+++ b/ThermoFun/Common/ParseJsonToData.cpp
@@ -155,7 +155,7 @@ auto read_value_unit(const json& j, const std::string& data, double& value, cons
     if (j.contains(data)) {
         const auto& entry = j[data];
 
-        if (entry.contains("units") && entry["units"].is_array() && !entry["units"][0].is_null())
+        if (entry.contains("units") && entry["units"].is_array() && !entry["units"].empty() && !entry["units"][0].is_null())
             unit_from = entry["units"][0].get<std::string>();
 
         // Temporary fixes
@@ -169,7 +169,7 @@ auto read_value_unit(const json& j, const std::string& data, double& value, cons
             factor = 1;
         }
 
-        if (entry.contains("values") && entry["values"].is_array() && !entry["values"][0].is_null()) {
+        if (entry.contains("values") && entry["values"].is_array() && !entry["values"].empty() && !entry["values"][0].is_null()) {
             value = units::convert(entry["values"][0].get<double>() * factor, unit_from, unit_to);
         }
     }
@@ -488,13 +488,16 @@ auto parseElement(const std::string &data) -> Element
         if (j.contains("number"))
             if (!j["number"].is_null())
                 e.setNumber(j["number"].get<int>());
-        double val;
+        double val = 0.0;
         read_value_unit(j, "entropy", val, "J/(mol*K)");
         e.setEntropy(val);
+        val = 0.0;
         read_value_unit(j, "heat_capacity", val, "J/(mol*K)");
         e.setHeatCapacity(val);
+        val = 0.0;
         read_value_unit(j, "atomic_mass", val, "g/mol");
         e.setMolarMass(val);
+        val = 0.0;
         read_value_unit(j, "volume", val, "J/bar");
         e.setVolume(val);
 
@@ -551,7 +554,7 @@ auto parseSubstance(const std::string &data) -> Substance
             if (!j["reaction"].is_null())
                 s.setReactionSymbol(j["reaction"]);
 
-        double val;
+        double val = 0.0;
         read_value_unit(j, "mass_per_mole", val, "g/mol");
         s.setMolarMass(val);
 
diff --git a/ThermoFun/ThermoParameters.h b/ThermoFun/ThermoParameters.h
index 957a873..6321859 100644
--- a/ThermoFun/ThermoParameters.h
+++ b/ThermoFun/ThermoParameters.h
@@ -13,7 +13,7 @@ namespace ThermoFun {
 struct TPlimit {
 
     /// upper, lower temperature and pressure limits in degrees K
-    double upperT, lowerT, upperP, lowerP;
+    double upperT = 0.0, lowerT = 0.0, upperP = 0.0, lowerP = 0.0;
 
     /// hard limit, calculation not executed beyond the limit; soft limit calculation executed
     bool isHard = false;
@@ -75,10 +75,10 @@ typedef std::vector<std::pair<std::string,Method>> listmethods;
 struct ThermoParametersSubstance
 {
     /// Isothermal compressibility (for condensed substances)
-    double isothermal_compresibility;
+    double isothermal_compresibility = 0.0;
 
     /// Isobaric expansivity (for condensed substances)
-    double isobaric_expansivity;
+    double isobaric_expansivity = 0.0;
 
     /// Lower and upper T limits for Cp=f(T) equation
     vvd temperature_intervals;
-- 
2.43.0


From 7354553c9f4866acf7e59bcd0fffd08b12426173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:12 +0000
Subject: [PATCH 07/32] fix: gas models read only the parameters present in the
 record, release them, and report failed calculations

---
 ThermoFun/Substances/Gases/GasCGF.cpp      | 12 +++----
 ThermoFun/Substances/Gases/GasCORK.cpp     | 15 +++------
 ThermoFun/Substances/Gases/GasPR78.cpp     | 12 +++----
 ThermoFun/Substances/Gases/GasPRSV.cpp     | 12 +++----
 ThermoFun/Substances/Gases/GasParameters.h | 39 ++++++++++++++++++++++
 ThermoFun/Substances/Gases/GasSRK.cpp      | 12 +++----
 ThermoFun/Substances/Gases/GasSTP.cpp      | 19 ++++++-----
 ThermoFun/Substances/Gases/s_solmod2_.cpp  | 10 +++---
 8 files changed, 76 insertions(+), 55 deletions(-)
 create mode 100644 ThermoFun/Substances/Gases/GasParameters.h

diff --git a/ThermoFun/Substances/Gases/GasCGF.cpp b/ThermoFun/Substances/Gases/GasCGF.cpp
index df3ab15..3c20bad 100644
--- a/ThermoFun/Substances/Gases/GasCGF.cpp
+++ b/ThermoFun/Substances/Gases/GasCGF.cpp
@@ -3,23 +3,19 @@
 #include "Substance.h"
 #include "ThermoProperties.h"
 #include "ThermoParameters.h"
+#include "Substances/Gases/GasParameters.h"
 
 namespace ThermoFun {
 
 auto thermoPropertiesGasCGF(Reaktoro_::Temperature TK, Reaktoro_::Pressure Pbar, Substance subst, ThermoPropertiesSubstance tps) -> ThermoPropertiesSubstance
 {
-    double FugProps[6];
+    double FugProps[6] = {};
     if (Pbar.val == 0.0)
         Pbar += 1e-5;
     solmod::TCGFcalc myCGF( 1, (Pbar.val), (TK.val) );
-    double TClow = subst.thermoParameters().temperature_intervals[0][0];
-    double * CPg = new double[7];
-    for (unsigned int i = 0; i < 7; i++)
-    {
-        CPg[i] = subst.thermoParameters().critical_parameters[i];
-    }
+    GasParameters params(subst, "CGF");
 
-    myCGF.CGcalcFugPure( (TClow/*+273.15*/), (CPg), FugProps );
+    myCGF.CGcalcFugPure( params.TClow, params.CPg.data(), FugProps );
 
     // increment thermodynamic properties
     tps.gibbs_energy += R_CONSTANT * (TK) * log( FugProps[0] );
diff --git a/ThermoFun/Substances/Gases/GasCORK.cpp b/ThermoFun/Substances/Gases/GasCORK.cpp
index 58d50bb..8c5398a 100644
--- a/ThermoFun/Substances/Gases/GasCORK.cpp
+++ b/ThermoFun/Substances/Gases/GasCORK.cpp
@@ -1,15 +1,15 @@
-#include <array>
 #include "Substances/Gases/GasCORK.h"
 #include "Substances/Gases/s_solmod_.h"
 #include "Substance.h"
 #include "ThermoProperties.h"
 #include "ThermoParameters.h"
+#include "Substances/Gases/GasParameters.h"
 
 namespace ThermoFun {
 
 auto thermoPropertiesGasCORK(Reaktoro_::Temperature TK, Reaktoro_::Pressure Pbar, Substance subst, ThermoPropertiesSubstance tps) -> ThermoPropertiesSubstance
 {
-    double FugProps[6];
+    double FugProps[6] = {};
     char Eos_Code = 'G';
     if (Pbar.val == 0.0)
         Pbar += 1e-5;
@@ -18,14 +18,9 @@ auto thermoPropertiesGasCORK(Reaktoro_::Temperature TK, Reaktoro_::Pressure Pbar
     if (subst.formula() == "H2O") Eos_Code = 'V';
 
     solmod::TCORKcalc myCORK( 1, Pbar.val, (TK.val), Eos_Code );  // modified 05.11.2010 (TW)
-    double TClow = subst.thermoParameters().temperature_intervals[0][0];
-    std::array<double, 7> CPg;
-    for (unsigned int i = 0; i < 7; i++)
-    {
-        CPg[i] = subst.thermoParameters().critical_parameters[i];
-    }
-
-    myCORK.CORKCalcFugPure( (TClow/*+273.15*/), CPg.data(), FugProps );
+    GasParameters params(subst, "CORK");
+
+    myCORK.CORKCalcFugPure( params.TClow, params.CPg.data(), FugProps );
 
     // increment thermodynamic properties
     tps.gibbs_energy += R_CONSTANT * (TK) * log( FugProps[0] ); // from ideal gas at 1 bar and givent T to pure real gas/fluid at T and P
diff --git a/ThermoFun/Substances/Gases/GasPR78.cpp b/ThermoFun/Substances/Gases/GasPR78.cpp
index a8c93cd..d29032a 100644
--- a/ThermoFun/Substances/Gases/GasPR78.cpp
+++ b/ThermoFun/Substances/Gases/GasPR78.cpp
@@ -3,23 +3,19 @@
 #include "Substance.h"
 #include "ThermoProperties.h"
 #include "ThermoParameters.h"
+#include "Substances/Gases/GasParameters.h"
 
 namespace ThermoFun {
 
 auto thermoPropertiesGasPR78(Reaktoro_::Temperature TK, Reaktoro_::Pressure Pbar, Substance subst, ThermoPropertiesSubstance tps) -> ThermoPropertiesSubstance
 {
-    double FugProps[6];
+    double FugProps[6] = {};
     if (Pbar.val == 0.0)
         Pbar += 1e-5;
     solmod::TPR78calc myPR78( 1, (Pbar.val), (TK.val) );
-    double TClow = subst.thermoParameters().temperature_intervals[0][0];
-    double * CPg = new double[7];
-    for (unsigned int i = 0; i < 7; i++)
-    {
-        CPg[i] = subst.thermoParameters().critical_parameters[i];
-    }
+    GasParameters params(subst, "PR78");
 
-    myPR78.PR78CalcFugPure( (TClow/*+273.15*/), (CPg), FugProps );
+    myPR78.PR78CalcFugPure( params.TClow, params.CPg.data(), FugProps );
 
     // increment thermodynamic properties
     tps.gibbs_energy += R_CONSTANT * (TK) * log( FugProps[0] );
diff --git a/ThermoFun/Substances/Gases/GasPRSV.cpp b/ThermoFun/Substances/Gases/GasPRSV.cpp
index 86026a8..501f3c2 100644
--- a/ThermoFun/Substances/Gases/GasPRSV.cpp
+++ b/ThermoFun/Substances/Gases/GasPRSV.cpp
@@ -3,23 +3,19 @@
 #include "Substance.h"
 #include "ThermoProperties.h"
 #include "ThermoParameters.h"
+#include "Substances/Gases/GasParameters.h"
 
 namespace ThermoFun {
 
 auto thermoPropertiesGasPRSV(Reaktoro_::Temperature TK, Reaktoro_::Pressure Pbar, Substance subst, ThermoPropertiesSubstance tps) -> ThermoPropertiesSubstance
 {
-    double FugProps[6];
+    double FugProps[6] = {};
     if (Pbar.val == 0.0)
         Pbar += 1e-5;
     solmod::TPRSVcalc myPRSV( 1, (Pbar.val), (TK.val) );
-    double TClow = subst.thermoParameters().temperature_intervals[0][0];
-    double * CPg = new double[7];
-    for (unsigned int i = 0; i < 7; i++)
-    {
-        CPg[i] = subst.thermoParameters().critical_parameters[i];
-    }
+    GasParameters params(subst, "PRSV");
 
-    myPRSV.PRSVCalcFugPure( (TClow/*+273.15*/), (CPg), FugProps );
+    myPRSV.PRSVCalcFugPure( params.TClow, params.CPg.data(), FugProps );
 
     // increment thermodynamic properties
     tps.gibbs_energy += R_CONSTANT * (TK) * log( FugProps[0] );
diff --git a/ThermoFun/Substances/Gases/GasParameters.h b/ThermoFun/Substances/Gases/GasParameters.h
new file mode 100644
index 0000000..0eb5605
--- /dev/null
+++ b/ThermoFun/Substances/Gases/GasParameters.h
@@ -0,0 +1,39 @@
+#ifndef GASPARAMETERS_H
+#define GASPARAMETERS_H
+
+#include <algorithm>
+#include <array>
+#include <vector>
+
+#include "Common/Exception.h"
+#include "Substance.h"
+#include "ThermoParameters.h"
+
+namespace ThermoFun {
+
+/// The parameters of a fluid equation of state as the models expect them
+struct GasParameters
+{
+    /// Lower temperature limit
+    double TClow = 0.0;
+
+    /// Critical parameters and coefficients, those which are not in the record are 0
+    /// (the Churakov and Gottschalk model reads 12 of them)
+    std::array<double, 12> CPg{};
+
+    GasParameters(const Substance& subst, const std::string& model)
+    {
+        const auto params = subst.thermoParameters();
+        if (params.temperature_intervals.empty() || params.temperature_intervals[0].empty())
+            errorModelParameters("temperature interval", model + " of " + subst.symbol(), __LINE__, __FILE__);
+        if (params.critical_parameters.size() < 2)
+            errorModelParameters("critical parameters", model + " of " + subst.symbol(), __LINE__, __FILE__);
+
+        TClow = params.temperature_intervals[0][0];
+        std::copy_n(params.critical_parameters.begin(), std::min(params.critical_parameters.size(), CPg.size()), CPg.begin());
+    }
+};
+
+}
+
+#endif // GASPARAMETERS_H
diff --git a/ThermoFun/Substances/Gases/GasSRK.cpp b/ThermoFun/Substances/Gases/GasSRK.cpp
index 48afa27..7b38122 100644
--- a/ThermoFun/Substances/Gases/GasSRK.cpp
+++ b/ThermoFun/Substances/Gases/GasSRK.cpp
@@ -3,23 +3,19 @@
 #include "Substance.h"
 #include "ThermoProperties.h"
 #include "ThermoParameters.h"
+#include "Substances/Gases/GasParameters.h"
 
 namespace ThermoFun {
 
 auto thermoPropertiesGasSRK(Reaktoro_::Temperature TK, Reaktoro_::Pressure Pbar, Substance subst, ThermoPropertiesSubstance tps) -> ThermoPropertiesSubstance
 {
-    double FugProps[6];
+    double FugProps[6] = {};
     if (Pbar.val == 0.0)
         Pbar += 1e-5;
     solmod::TSRKcalc mySRK( 1, (Pbar.val), (TK.val) );
-    double TClow = subst.thermoParameters().temperature_intervals[0][0];
-    double * CPg = new double[7];
-    for (unsigned int i = 0; i < 7; i++)
-    {
-        CPg[i] = subst.thermoParameters().critical_parameters[i];
-    }
+    GasParameters params(subst, "SRK");
 
-    mySRK.SRKCalcFugPure( (TClow/*+273.15*/), (CPg), FugProps );
+    mySRK.SRKCalcFugPure( params.TClow, params.CPg.data(), FugProps );
 
     // increment thermodynamic properties
     tps.gibbs_energy += R_CONSTANT * (TK) * log( FugProps[0] );
diff --git a/ThermoFun/Substances/Gases/GasSTP.cpp b/ThermoFun/Substances/Gases/GasSTP.cpp
index f8bac3a..1ac9759 100644
--- a/ThermoFun/Substances/Gases/GasSTP.cpp
+++ b/ThermoFun/Substances/Gases/GasSTP.cpp
@@ -3,13 +3,14 @@
 #include "Substance.h"
 #include "ThermoProperties.h"
 #include "ThermoParameters.h"
+#include "Substances/Gases/GasParameters.h"
 
 namespace ThermoFun {
 
 auto thermoPropertiesGasSTP(Reaktoro_::Temperature TK, Reaktoro_::Pressure Pbar, Substance subst, ThermoPropertiesSubstance tps) -> ThermoPropertiesSubstance
 {
-    double FugProps[6];
-    char Eos_Code;
+    double FugProps[6] = {};
+    char Eos_Code = 'G';
     if (Pbar.val == 0.0)
         Pbar += 1e-5;
 
@@ -17,15 +18,17 @@ auto thermoPropertiesGasSTP(Reaktoro_::Temperature TK, Reaktoro_::Pressure Pbar,
     if (subst.formula() == "H2O") Eos_Code = 'V';
 
     solmod::TSTPcalc mySTP( 1, Pbar.val, (TK.val), Eos_Code );  // modified 05.11.2010 (TW)
-    double TClow = subst.thermoParameters().temperature_intervals[0][0];
-    double * CPg = new double[7];
-    for (unsigned int i = 0; i < 7; i++)
+    GasParameters params(subst, "STP");
+
+    if (mySTP.STPCalcFugPure( params.TClow, params.CPg.data(), FugProps ) > 0)
     {
-        CPg[i] = subst.thermoParameters().critical_parameters[i];
+        Exception exception;
+        exception.error << "Error in STP Sterner-Pitzer fluid model";
+        exception.reason << "The properties of " << subst.symbol() << " could not be calculated at the given temperature and pressure.";
+        exception.line = __LINE__;
+        RaiseError(exception);
     }
 
-    mySTP.STPCalcFugPure( (TClow/*+273.15*/), (CPg), FugProps );
-
     // increment thermodynamic properties
     tps.gibbs_energy += R_CONSTANT * (TK) * log( FugProps[0] );
     tps.enthalpy     += FugProps[2];
diff --git a/ThermoFun/Substances/Gases/s_solmod2_.cpp b/ThermoFun/Substances/Gases/s_solmod2_.cpp
index 3ae47b4..4f00943 100644
--- a/ThermoFun/Substances/Gases/s_solmod2_.cpp
+++ b/ThermoFun/Substances/Gases/s_solmod2_.cpp
@@ -77,7 +77,7 @@ void TPRSVcalc::alloc_internal()
 {
 	Eosparm = new double [NComp][6];
 	Pureparm = new double [NComp][4];
-	Fugpure = new double [NComp][6];
+	Fugpure = new double [NComp][6]();
 	Fugci = new double [NComp][4];
 	a = new double *[NComp];
 	b = new double *[NComp];
@@ -2486,7 +2486,7 @@ void TSRKcalc::alloc_internal()
 {
 	Eosparm = new double [NComp][4];
 	Pureparm = new double [NComp][4];
-	Fugpure = new double [NComp][6];
+	Fugpure = new double [NComp][6]();
 	Fugci = new double [NComp][4];
 	a = new double *[NComp];
 	b = new double *[NComp];
@@ -3291,7 +3291,7 @@ void TPR78calc::alloc_internal()
 {
 	Eosparm = new double [NComp][4];
 	Pureparm = new double [NComp][4];
-	Fugpure = new double [NComp][6];
+	Fugpure = new double [NComp][6]();
 	Fugci = new double [NComp][4];
 	a = new double *[NComp];
 	b = new double *[NComp];
@@ -4119,7 +4119,7 @@ void TCORKcalc::alloc_internal()
     d2phi = new double [NComp];
     dphip = new double [NComp];
     Eosparm = new double [NComp][2];
-    Fugpure = new double [NComp][6];
+    Fugpure = new double [NComp][6]();
     Fugci = new double [NComp][4];
     Rho = new double [NComp][11];
     A = new double *[NComp];
@@ -5118,7 +5118,7 @@ void TSTPcalc::alloc_internal()
     d2phi = new double [NComp];
     dphip = new double [NComp];
     lng = new double [NComp];
-    Fugpure = new double [NComp][7];
+    Fugpure = new double [NComp][7]();
     Rho = new double [NComp][11];
     cfh = new double *[10];
     cfc = new double *[10];
-- 
2.43.0


From 8e78b844f8c10bd5137c1f9a4a09aa829cc4d62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:12 +0000
Subject: [PATCH 08/32] fix: remembered intermediate values of the CG fluid
 model are not shared between threads

---
 ThermoFun/Substances/Gases/s_solmod2_.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/ThermoFun/Substances/Gases/s_solmod2_.cpp b/ThermoFun/Substances/Gases/s_solmod2_.cpp
index 4f00943..f4dd39f 100644
--- a/ThermoFun/Substances/Gases/s_solmod2_.cpp
+++ b/ThermoFun/Substances/Gases/s_solmod2_.cpp
@@ -1421,8 +1421,8 @@ long int TCGFcalc::CGActivCoefRhoT( double *X, double *param, double *act,
 
 double TCGFcalc::DIntegral( double T, double ro, unsigned long int IType )
 {
-	static double TOld,roOld;
-	static double a,b,c,d,e;
+	thread_local static double TOld,roOld;
+	thread_local static double a,b,c,d,e;
 	static double data[][6]=
 		{{-0.257431, 0.439229,  0.414783,  -0.457019, -0.145520,  0.299666},
 		{-0.396724, 0.690721,  0.628935,  -0.652622, -0.201462, -0.23163 },
@@ -1480,8 +1480,8 @@ double TCGFcalc::DIntegral( double T, double ro, unsigned long int IType )
 
 double TCGFcalc::LIntegral( double T, double ro,unsigned long int IType )
 {
-	static double TOld,roOld;
-	static double a,b,c,d,e;
+	thread_local static double TOld,roOld;
+	thread_local static double a,b,c,d,e;
 	static double data[][6]=
 	{{ -1.010391, 1.628552,  2.077476,  -2.30162 , -0.689931, -2.688117},
 	{ -1.228611, 2.060090,  2.463396,  -2.453303, -0.573894, -3.350638},
@@ -1522,8 +1522,8 @@ double TCGFcalc::LIntegral( double T, double ro,unsigned long int IType )
 
 double TCGFcalc::KIntegral( double T, double ro,unsigned long int IType )
 {
-	static double TOld,roOld;
-	static double a,b,c,d,e;
+	thread_local static double TOld,roOld;
+	thread_local static double a,b,c,d,e;
 	static double data[][6]=
 	{{ -1.050534, 1.747476,  1.749366,  -1.999227, -0.661046, -3.028720},
 	{ -1.309550, 2.249120,  2.135877,  -2.278530, -0.773166, -3.704690},
@@ -1575,8 +1575,8 @@ double TCGFcalc::KIntegral( double T, double ro,unsigned long int IType )
 
 double TCGFcalc::K23_13( double T, double ro )
 {
-	static double TOld,roOld,KOLD;
-	static double a,b,c,d,e;
+	thread_local static double TOld,roOld,KOLD;
+	thread_local static double a,b,c,d,e;
 	static double dtmp[]=
 	{ -1.050534, 1.747476,  1.749366,  -1.999227, -0.661046, -3.028720};
 
@@ -1755,7 +1755,7 @@ double TCGFcalc::dHS( double beta,double ro )
 
 double TCGFcalc::FWCA( double T,double ro )
 {
-	static double TOld,roOld,F;
+	thread_local static double TOld,roOld,F;
 	double d,beta,nu,nuw;
 	double nu1w1,nu1w2,nu1w3,nu1w4,nu1w5;
 	double a0,a1,a2,a3;
-- 
2.43.0


From 23c0d55aea9565745887245a1a471d6416a396be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:37 +0000
Subject: [PATCH 09/32] fix: models check that the parameters they read are
 present in the record

---
 ThermoFun/Reactions/DolejsManning2010.cpp     |  4 ++++
 ThermoFun/Reactions/FrantzMarshall.cpp        |  4 ++++
 ThermoFun/Reactions/LogK_function_of_T.cpp    |  7 ++++++
 ThermoFun/Reactions/RyzhenkoBryzgalyn.cpp     |  4 ++++
 .../Substances/EmpiricalCpIntegration.cpp     | 22 ++++++++++++++-----
 .../Substances/Solids/SolidBMGottschalk.cpp   |  2 +-
 ThermoFun/Substances/Solute/SoluteADgems.cpp  |  2 +-
 ThermoFun/Substances/Solute/SoluteHKFgems.cpp |  4 +++-
 .../Substances/Solute/SoluteHKFreaktoro.cpp   |  4 +++-
 9 files changed, 43 insertions(+), 10 deletions(-)

diff --git a/ThermoFun/Reactions/DolejsManning2010.cpp b/ThermoFun/Reactions/DolejsManning2010.cpp
index aa20847..08afd79 100644
--- a/ThermoFun/Reactions/DolejsManning2010.cpp
+++ b/ThermoFun/Reactions/DolejsManning2010.cpp
@@ -1,4 +1,5 @@
 #include "DolejsManning2010.h"
+#include "Common/Exception.h"
 #include "ThermoParameters.h"
 
 namespace ThermoFun {
@@ -14,6 +15,9 @@ auto thermoPropertiesDolejsManning2010(Reaktoro_::Temperature TK, Reaktoro_::Pre
     auto dALPdTw = wp.dAldT;
     auto DMcoef = reaction.thermoParameters().reaction_DM10_coeff;
 
+    if (DMcoef.size() < 5)
+        errorModelParameters("Dolejs-Manning", "reaction " + reaction.symbol(), __LINE__, __FILE__);
+
     auto dRHOdT = -ALPw*RHOw;
     auto dRHOdP = BETw*RHOw;
     auto d2RHOdT2 = RHOw*(pow(ALPw,2)-dALPdTw);
diff --git a/ThermoFun/Reactions/FrantzMarshall.cpp b/ThermoFun/Reactions/FrantzMarshall.cpp
index f5bbce7..3656ab6 100644
--- a/ThermoFun/Reactions/FrantzMarshall.cpp
+++ b/ThermoFun/Reactions/FrantzMarshall.cpp
@@ -1,4 +1,5 @@
 #include "FrantzMarshall.h"
+#include "Common/Exception.h"
 #include "ThermoParameters.h"
 
 namespace ThermoFun {
@@ -14,6 +15,9 @@ auto thermoPropertiesFrantzMarshall(Reaktoro_::Temperature TK, Reaktoro_::Pressu
     auto dALPdT = wp.dAldT;
     auto MFcoef = reaction.thermoParameters().reaction_FM_coeff;
 
+    if (MFcoef.size() < 7)
+        errorModelParameters("Marshall-Franck", "reaction " + reaction.symbol(), __LINE__, __FILE__);
+
     auto dRHOdT = -ALP*RHO;
     auto dRHOdP = BET*RHO;
     auto d2RHOdT2 = RHO*(pow(ALP,2)-dALPdT);
diff --git a/ThermoFun/Reactions/LogK_function_of_T.cpp b/ThermoFun/Reactions/LogK_function_of_T.cpp
index e99d572..e820cc4 100644
--- a/ThermoFun/Reactions/LogK_function_of_T.cpp
+++ b/ThermoFun/Reactions/LogK_function_of_T.cpp
@@ -1,5 +1,6 @@
 #include "LogK_function_of_T.h"
 #include "ThermoParameters.h"
+#include "Common/Exception.h"
 #include "Reaction.h"
 #include <algorithm>
 
@@ -143,6 +144,12 @@ auto thermoPropertiesReaction_LogK_fT(Reaktoro_::Temperature TK, Reaktoro_::Pres
                 CpCoeff[4] = Rln10 * 6.0 * A[5];
             }
 
+            // not given
+            if (A.size() == 0)
+                errorModelParameters("logK or heat capacity", "reaction " + reaction.symbol(), __LINE__, __FILE__);
+            A.resize(7, 0.0);
+            CpCoeff.resize(5, 0.0);
+
             lgK = A[0] + A[1] * TK + A[2]/TK + A[3] * log(TK) + A[4] / (TK*TK) +
                   A[5] * (TK*TK) + A[6] / pow(TK,0.5);
             dHr = Rln10 *( A[1]*(TK*TK) - A[2] + A[3]*TK - 2.0*A[4]/TK
diff --git a/ThermoFun/Reactions/RyzhenkoBryzgalyn.cpp b/ThermoFun/Reactions/RyzhenkoBryzgalyn.cpp
index d2e7c9b..511974f 100644
--- a/ThermoFun/Reactions/RyzhenkoBryzgalyn.cpp
+++ b/ThermoFun/Reactions/RyzhenkoBryzgalyn.cpp
@@ -1,4 +1,5 @@
 #include "RyzhenkoBryzgalyn.h"
+#include "Common/Exception.h"
 
 namespace ThermoFun {
 
@@ -14,6 +15,9 @@ auto thermoPropertiesRyzhenkoBryzgalin(Reaktoro_::Temperature TK, Reaktoro_::Pre
     auto dALPdT = wp.dAldT;
     auto RBcoef = reaction.thermoParameters().reaction_RB_coeff;
 
+    if (RBcoef.size() < 3)
+        errorModelParameters("Ryzhenko-Bryzgalin", "reaction " + reaction.symbol(), __LINE__, __FILE__);
+
     auto dRHOdT = -ALP*RHO;
     auto dRHOdP = BET*RHO;
     auto d2RHOdT2 = RHO*(pow(ALP,2)-dALPdT);
diff --git a/ThermoFun/Substances/EmpiricalCpIntegration.cpp b/ThermoFun/Substances/EmpiricalCpIntegration.cpp
index 25d4bec..eff2ce0 100644
--- a/ThermoFun/Substances/EmpiricalCpIntegration.cpp
+++ b/ThermoFun/Substances/EmpiricalCpIntegration.cpp
@@ -44,7 +44,7 @@ auto thermoPropertiesEmpCpIntegration(Reaktoro_::Temperature TK, Reaktoro_::Pres
     // get Cp interval -> this has to go!!!!
     for (size_t i = 0; i < thermo_parameters.temperature_intervals.size(); i++)
     {
-        if (thermo_parameters.temperature_intervals[i].size() > 0)
+        if (thermo_parameters.temperature_intervals[i].size() > 1)
         {
             if ((thermo_parameters.temperature_intervals[i][0] <= TK) && (thermo_parameters.temperature_intervals[i][1] > TK))
             {
@@ -60,16 +60,26 @@ auto thermoPropertiesEmpCpIntegration(Reaktoro_::Temperature TK, Reaktoro_::Pres
 
     if (k < 0)
     {
-        if (TK_ <= thermo_parameters.temperature_intervals[0][0])
-            k = 0;
-        if (TK_ > thermo_parameters.temperature_intervals[thermo_parameters.temperature_intervals.size() - 1][1])
-            k = thermo_parameters.temperature_intervals.size() - 1;
+        // the last interval which begins below the temperature, the first one if there is none
+        k = 0;
+        for (size_t i = 0; i < thermo_parameters.temperature_intervals.size(); i++)
+        {
+            if (thermo_parameters.temperature_intervals[i].size() > 1 && thermo_parameters.temperature_intervals[i][0] < TK_)
+                k = i;
+        }
 
         thfun_logger->warn(" {} {}: The given temperature: {} is not inside the specified interval/s for the Cp calculation.\n"
                            "The temperature is not inside the specified interval for the substance {}.",
                            __FILE__, __LINE__, static_cast<double>(TK_), substance.symbol());
     }
 
+    // all intervals up to the one of the temperature have to be defined
+    bool defined = static_cast<size_t>(k) < thermo_parameters.Cp_coeff.size();
+    for (int i = 0; k > 0 && i <= k; i++)
+        defined = defined && thermo_parameters.temperature_intervals[i].size() > 1;
+    if (!defined)
+        errorModelParameters("Cp empirical coefficients", substance.symbol() + " empirical Cp integration", __LINE__, __FILE__);
+
     //k = 0; fix
 
     for (unsigned i = 0; i < thermo_parameters.Cp_coeff[k].size(); i++)
@@ -119,7 +129,7 @@ auto thermoPropertiesEmpCpIntegration(Reaktoro_::Temperature TK, Reaktoro_::Pres
             RaiseError(exception)
         }
 
-        if (j && thermo_parameters.phase_transition_prop[ft][0] <= TrK /*-C_to_K*/)
+        if (j && ft < thermo_parameters.phase_transition_prop.size() && thermo_parameters.phase_transition_prop[ft][0] <= TrK /*-C_to_K*/)
         {                                                               // Adding parameters of phase transition
             if (thermo_parameters.phase_transition_prop[ft].size() > 1) // dS
                 S += thermo_parameters.phase_transition_prop[ft][1];
diff --git a/ThermoFun/Substances/Solids/SolidBMGottschalk.cpp b/ThermoFun/Substances/Solids/SolidBMGottschalk.cpp
index 09364f5..add93b2 100644
--- a/ThermoFun/Substances/Solids/SolidBMGottschalk.cpp
+++ b/ThermoFun/Substances/Solids/SolidBMGottschalk.cpp
@@ -86,7 +86,7 @@ Reaktoro_::ThermoScalar vt, /*vpt,*/ a1, a2, a3, /*a4, a5,*/ kt00, kt0, dkdt, kp
     kt00 = BMConst[5];
     dkdt = BMConst[6];
     kp = BMConst[7];
-    kpp = BMConst[8];
+    kpp = BMConst.size() > 8 ? BMConst[8] : 0.0;
 
     Reaktoro_::Pressure Pplus = P.val + Pincr.val;
     Reaktoro_::Pressure Pminus = P.val - Pincr.val;
diff --git a/ThermoFun/Substances/Solute/SoluteADgems.cpp b/ThermoFun/Substances/Solute/SoluteADgems.cpp
index 80d9e1a..ecf8af1 100644
--- a/ThermoFun/Substances/Solute/SoluteADgems.cpp
+++ b/ThermoFun/Substances/Solute/SoluteADgems.cpp
@@ -39,7 +39,7 @@ auto thermoPropertiesAqSoluteAD(Reaktoro_::Temperature Tk, Reaktoro_::Pressure P
 
     const auto ADparam = subst.thermoParameters().Cp_nonElectrolyte_coeff;
 
-    if (ADparam.size() == 0)
+    if (ADparam.size() < 3)
     {
         Exception exception;
         exception.error << "Error in Akinfiev Diamond EOS";
diff --git a/ThermoFun/Substances/Solute/SoluteHKFgems.cpp b/ThermoFun/Substances/Solute/SoluteHKFgems.cpp
index 1cc3a3e..4931216 100644
--- a/ThermoFun/Substances/Solute/SoluteHKFgems.cpp
+++ b/ThermoFun/Substances/Solute/SoluteHKFgems.cpp
@@ -26,7 +26,7 @@ auto thermoPropertiesAqSoluteHKFgems(Reaktoro_::Temperature TC, Reaktoro_::Press
 
     auto TK = Reaktoro_::Temperature (TC.val+C_to_K);
 
-    if (hkf.size() == 0)
+    if (hkf.size() < 7)
     {
         Exception exception;
         exception.error << "Error in HKFgems EOS";
@@ -256,6 +256,8 @@ auto omeg92(FunctionG g, Substance species) -> ElectroPropertiesSubstance
     const auto chg = species.charge();
 
     auto hkf = species.thermoParameters().HKF_parameters;
+    if (hkf.size() < 7)
+        errorModelParameters("HKF", "HKFgems " + species.symbol(), __LINE__, __FILE__);
     const auto wref = hkf[6] /*hkf.wref*/;
 
     ElectroPropertiesSubstance eps;
diff --git a/ThermoFun/Substances/Solute/SoluteHKFreaktoro.cpp b/ThermoFun/Substances/Solute/SoluteHKFreaktoro.cpp
index 52f9f03..3757480 100644
--- a/ThermoFun/Substances/Solute/SoluteHKFreaktoro.cpp
+++ b/ThermoFun/Substances/Solute/SoluteHKFreaktoro.cpp
@@ -48,7 +48,7 @@ auto thermoPropertiesAqSoluteHKFreaktoro(Reaktoro_::Temperature TK, Reaktoro_::P
     auto hkf = subst.thermoParameters().HKF_parameters;
     auto refProp = subst.thermoReferenceProperties();
 
-    if (hkf.size() == 0)
+    if (hkf.size() < 7)
     {
         Exception exception;
         exception.error << "Error in HKFreaktoro EOS";
@@ -151,6 +151,8 @@ auto speciesElectroStateHKF(const FunctionG& g, Substance species) -> ElectroPro
 {
     // Get the HKF thermodynamic parameters of the aqueous species
     auto hkf = species.thermoParameters().HKF_parameters;
+    if (hkf.size() < 7)
+        errorModelParameters("HKF", "HKFreaktoro " + species.symbol(), __LINE__, __FILE__);
 
     // The species electro instance to be calculated
     ElectroPropertiesSubstance se;
-- 
2.43.0


From fb2ff47b9f457235d0582afcde54db55b25d516a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:49 +0000
Subject: [PATCH 10/32] fix: the line of an error which does not set it is not
 leftover memory contents

---
 ThermoFun/Common/Exception.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ThermoFun/Common/Exception.h b/ThermoFun/Common/Exception.h
index adf1009..08ba549 100644
--- a/ThermoFun/Common/Exception.h
+++ b/ThermoFun/Common/Exception.h
@@ -27,7 +27,7 @@ struct Exception
     std::stringstream reason;
 
     /// The line in the cpp file
-    int line;
+    int line = 0;
 
     std::string file;
 };
-- 
2.43.0


From cdcdd8f59735d3f62414445f56915326b8e0370b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:07 +0000
Subject: [PATCH 11/32] fix: adding a map of records keeps the stored ones,
 setting one replaces them, appended elements reach the formula parser

---
 ThermoFun/Database.cpp | 59 +++++++++++++++++++++++++++++++++---------
 1 file changed, 47 insertions(+), 12 deletions(-)

diff --git a/ThermoFun/Database.cpp b/ThermoFun/Database.cpp
index e95ebb6..6c040d7 100644
--- a/ThermoFun/Database.cpp
+++ b/ThermoFun/Database.cpp
@@ -101,7 +101,7 @@ struct Database::Impl
     auto setElement(const Element& element) -> void
     {
         checkIfSymbolExists(elements_map, "element", element.symbol());
-        elements_map[element.symbol()] = element;
+        elements_map.insert_or_assign(element.symbol(), element);
         setDBElement(elements_map[element.symbol()]);
     }
 
@@ -113,18 +113,31 @@ struct Database::Impl
     auto setSubstance(const Substance& substance) -> void
     {
         checkIfSymbolExists(substances_map, "substance", substance.symbol());
-        substances_map[substance.symbol()] = substance;
+        substances_map.insert_or_assign(substance.symbol(), substance);
     }
 
     auto addMapElements(const ElementsMap& elements) -> void
     {
-        elements_map = elements;
+        elements_map.insert(elements.begin(), elements.end());
+        setDBElements(elements_map);
+    }
+
+    auto setMapElements(const ElementsMap& elements) -> void
+    {
+        for (const auto& e : elements)
+            elements_map.insert_or_assign(e.first, e.second);
         setDBElements(elements_map);
     }
 
     auto addMapSubstances(const SubstancesMap& substances) -> void
     {
-        substances_map = substances;
+        substances_map.insert(substances.begin(), substances.end());
+    }
+
+    auto setMapSubstances(const SubstancesMap& substances) -> void
+    {
+        for (const auto& s : substances)
+            substances_map.insert_or_assign(s.first, s.second);
     }
 
     auto addReaction(const Reaction& reaction) -> void
@@ -135,12 +148,18 @@ struct Database::Impl
     auto setReaction(const Reaction& reaction) -> void
     {
         checkIfSymbolExists(reactions_map, "reaction", reaction.symbol());
-        reactions_map[reaction.symbol()] = reaction;
+        reactions_map.insert_or_assign(reaction.symbol(), reaction);
     }
 
     auto addMapReactions(const ReactionsMap& reactions) -> void
     {
-        reactions_map = reactions;
+        reactions_map.insert(reactions.begin(), reactions.end());
+    }
+
+    auto setMapReactions(const ReactionsMap& reactions) -> void
+    {
+        for (const auto& r : reactions)
+            reactions_map.insert_or_assign(r.first, r.second);
     }
 
     auto getElements() const -> std::vector<Element>
@@ -209,7 +228,7 @@ struct Database::Impl
                 empty_element.setSymbol(symbol);
                 empty_element.setName(symbol);
             }
-            elements_map[symbol] = empty_element;
+            elements_map.insert_or_assign(symbol, empty_element);
         }
         return elements_map[symbol];
     }
@@ -221,7 +240,7 @@ struct Database::Impl
             empty_subst.setSymbol(symbol);
             empty_subst.setName(symbol);
             // ... set other default data
-            substances_map[symbol]=empty_subst;
+            substances_map.insert_or_assign(symbol, empty_subst);
         }
         return substances_map[symbol];
     }
@@ -234,7 +253,7 @@ struct Database::Impl
             empty_react.setSymbol(symbol);
             empty_react.setName(symbol);
             // ... set other default data
-            reactions_map[symbol]=empty_react;
+            reactions_map.insert_or_assign(symbol, empty_react);
         }
         return reactions_map[symbol];
     }
@@ -297,21 +316,22 @@ struct Database::Impl
             Substance substance = parseSubstance(props);
             substance.setJsonString(props);
             checkIfSymbolExists(substances_map, "substance", substance.symbol());
-            substances_map[substance.symbol()] = substance;
+            substances_map.insert_or_assign(substance.symbol(), substance);
         } else
         if (_label == "reaction")
         {
            Reaction reaction = parseReaction(props);
            reaction.setJsonString(props);
            checkIfSymbolExists(reactions_map, "reaction", reaction.symbol());
-           reactions_map[reaction.symbol()] = reaction;
+           reactions_map.insert_or_assign(reaction.symbol(), reaction);
         } else
         if (_label == "element")
         {
             Element element = parseElement(props);
             element.setJsonString(props);
             checkIfSymbolExists(elements_map, "element", element.symbol());
-            elements_map[element.symbol()] = element;
+            elements_map.insert_or_assign(element.symbol(), element);
+            setDBElement(elements_map[element.symbol()]);
         } else
         {
             Exception exception;
@@ -452,6 +472,11 @@ auto Database::addMapElements(const ElementsMap& elements) -> void
     pimpl->addMapElements(elements);
 }
 
+auto Database::setMapElements(const ElementsMap& elements) -> void
+{
+    pimpl->setMapElements(elements);
+}
+
 auto Database::addSubstance(const Substance& substance) -> void
 {
     pimpl->addSubstance(substance);
@@ -477,6 +502,11 @@ auto Database::addMapSubstances(const SubstancesMap& substances) -> void
     pimpl->addMapSubstances(substances);
 }
 
+auto Database::setMapSubstances(const SubstancesMap& substances) -> void
+{
+    pimpl->setMapSubstances(substances);
+}
+
 auto Database::addReaction(const Reaction& reaction) -> void
 {
     pimpl->addReaction(reaction);
@@ -502,6 +532,11 @@ auto Database::addMapReactions(const ReactionsMap& reactions) -> void
     pimpl->addMapReactions(reactions);
 }
 
+auto Database::setMapReactions(const ReactionsMap& reactions) -> void
+{
+    pimpl->setMapReactions(reactions);
+}
+
 auto Database::getElement(std::string symbol) const -> const Element&
 {
     return pimpl->getElement(symbol);
-- 
2.43.0


From 7b886bd8fe8cad47c840d2c6b82d99387cd79192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:37 +0000
Subject: [PATCH 12/32] fix: an output keeps the results and settings of its
 own call

---
 ThermoFun/Batch/OutputBatch.cpp | 42 +++++++++++++++++++++++++++------
 1 file changed, 35 insertions(+), 7 deletions(-)

diff --git a/ThermoFun/Batch/OutputBatch.cpp b/ThermoFun/Batch/OutputBatch.cpp
index 6783832..1db7522 100644
--- a/ThermoFun/Batch/OutputBatch.cpp
+++ b/ThermoFun/Batch/OutputBatch.cpp
@@ -9,23 +9,51 @@
 
 namespace ThermoFun {
 
+/// The settings and results of one batch call, independent of later calls of the same batch
+struct BatchCall
+{
+    vstr                                symbols_;
+    vstr                                properties_;
+    BatchPreferences                    outputSettings_;
+    std::map<std::string, std::string>  units_;
+    std::map<std::string, int>          digits_;
+    vvd                                 TPpairs_;
+    std::vector<double>                 temperatures_;
+    std::vector<double>                 pressures_;
+    vvThScalar                          results_;
+
+    auto symbols() const -> const vstr& { return symbols_; }
+    auto properties() const -> const vstr& { return properties_; }
+    auto outputSettings() const -> const BatchPreferences& { return outputSettings_; }
+    auto units() const -> const std::map<std::string, std::string>& { return units_; }
+    auto digits() const -> const std::map<std::string, int>& { return digits_; }
+    auto TPpairs() const -> const vvd& { return TPpairs_; }
+    auto Temperatures() const -> const std::vector<double>& { return temperatures_; }
+    auto Pressures() const -> const std::vector<double>& { return pressures_; }
+    auto results() const -> const vvThScalar& { return results_; }
+};
+
 struct Output::Impl
 {
-    /// Interface instance
-    ThermoBatch api;
+    /// The call this output belongs to
+    BatchCall api;
 
     std::string                         header = "";
     std::ofstream                       fProperties;
 
-    Impl(const ThermoBatch& batch_)
-    : api(ThermoBatch(batch_))
+    Impl(BatchCall call)
+    : api(std::move(call))
     {}
 
 };
 
-Output::Output(const ThermoBatch& batch)
-: pimpl(new Impl(batch))
-{}
+Output::Output(const ThermoBatch& batch_)
+{
+    ThermoBatch batch(batch_);
+    pimpl = std::make_shared<Impl>(BatchCall{ batch.symbols(), batch.properties(), batch.outputSettings(),
+                                              batch.units(), batch.digits(), batch.TPpairs(),
+                                              batch.Temperatures(), batch.Pressures(), batch.results() });
+}
 
 //Output::Output(const void *a)
 //: pimpl(new Impl(*(ThermoBatch*)a))
-- 
2.43.0


From 2d81d7523390ef2a7a59994ff657b14a989fae94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:22 +0000
Subject: [PATCH 13/32] fix: exports which could not be written completely
 raise an error, property grids keep the folder of the file name

---
 ThermoFun/Batch/OutputBatch.cpp  | 55 ++++++++++++++++++++++----------
 ThermoFun/Common/OutputToCSV.cpp | 35 ++++++++++++++++----
 2 files changed, 67 insertions(+), 23 deletions(-)

diff --git a/ThermoFun/Batch/OutputBatch.cpp b/ThermoFun/Batch/OutputBatch.cpp
index 1db7522..8d35da3 100644
--- a/ThermoFun/Batch/OutputBatch.cpp
+++ b/ThermoFun/Batch/OutputBatch.cpp
@@ -5,6 +5,7 @@
 #include <iomanip>
 #include <algorithm>
 #include "../GlobalVariables.h"
+#include "../Common/Exception.h"
 #include "../Common/Units.hpp"
 
 namespace ThermoFun {
@@ -45,6 +46,25 @@ struct Output::Impl
     : api(std::move(call))
     {}
 
+    /// Writes one file, raises an error if not all of it could be written
+    template<typename Content>
+    auto writeFile(const std::string& filename, Content content) -> void
+    {
+        fProperties = std::ofstream();
+        fProperties.open( filename, std::ios::trunc );
+        funErrorIf(!fProperties.is_open(), "File writing error", "Output file " + filename + " could not be opened!", __LINE__, __FILE__);
+        try
+        {
+            content();
+        }
+        catch (...)
+        {
+            fProperties.close();
+            throw;
+        }
+        fProperties.close();
+        funErrorIf(fProperties.fail(), "File writing error", "Output file " + filename + " could not be written!", __LINE__, __FILE__);
+    }
 };
 
 Output::Output(const ThermoBatch& batch_)
@@ -71,24 +91,22 @@ auto find_and_replace(std::string source, std::string const& find, std::string c
 
 auto Output::toCSV(std::string filename) -> void
 {
-    pimpl->fProperties.open( filename, std::ios::trunc );
-
-    pimpl->fProperties << CSVHeader() << std::endl;
-
-    foutResults();
+    pimpl->writeFile( filename, [&]()
+    {
+        pimpl->fProperties << CSVHeader() << std::endl;
 
-    pimpl->fProperties.close();
+        foutResults();
+    });
 }
 
 auto Output::toCSVTransposed(std::string filename) -> void
 {
-    pimpl->fProperties.open( filename, std::ios::trunc );
-
-    pimpl->fProperties << CSVHeaderTransposed() << std::endl;
-
-    foutResultsTransposed();
+    pimpl->writeFile( filename, [&]()
+    {
+        pimpl->fProperties << CSVHeaderTransposed() << std::endl;
 
-    pimpl->fProperties.close();
+        foutResultsTransposed();
+    });
 }
 
 auto Output::toCSVPropertyGrid(std::string filename) -> void
@@ -96,13 +114,16 @@ auto Output::toCSVPropertyGrid(std::string filename) -> void
     auto properties = pimpl->api.properties();
     for (size_t i = 0; i<properties.size(); i++)
     {
-        pimpl->fProperties.open(std::string(properties[i]+"_"+filename), std::ios::trunc );
-
-        pimpl->fProperties << CSVHeaderPropertyGrid() << std::endl;
+        // the property name goes in front of the name of the file, after the folder
+        auto filepath = filename;
+        filepath.insert(filename.find_last_of("/\\") + 1, properties[i]+"_");
 
-        foutPropertyGrid(properties[i], i);
+        pimpl->writeFile( filepath, [&]()
+        {
+            pimpl->fProperties << CSVHeaderPropertyGrid() << std::endl;
 
-        pimpl->fProperties.close();
+            foutPropertyGrid(properties[i], i);
+        });
     }
 }
 
diff --git a/ThermoFun/Common/OutputToCSV.cpp b/ThermoFun/Common/OutputToCSV.cpp
index d686b5a..36b0fcb 100644
--- a/ThermoFun/Common/OutputToCSV.cpp
+++ b/ThermoFun/Common/OutputToCSV.cpp
@@ -1,8 +1,25 @@
 #include "OutputToCSV.h"
+#include "Exception.h"
 #include "ThermoProperties.h"
 
 namespace ThermoFun {
 
+namespace {
+
+auto openFile(std::ofstream& file, const std::string& fullPath) -> void
+{
+    file.clear();
+    file.open( fullPath , std::ios::trunc );
+    funErrorIf(file.fail(), "File writing error", "Output file " + fullPath + " could not be opened!", __LINE__, __FILE__);
+}
+
+auto checkFile(const std::ofstream& file, const std::string& fileName) -> void
+{
+    funErrorIf(file.fail(), "File writing error", "Output file " + fileName + " could not be written!", __LINE__, __FILE__);
+}
+
+}
+
 
 std::string OutputToCSV::getOutputFolderPath() const
 {
@@ -63,19 +80,22 @@ OutputToCSV::~OutputToCSV()
 auto OutputToCSV::closeThermoPropertiesSubstanceFile ( ) ->void
 {
     if (fThermoPropertiesSubstance.is_open()) { fThermoPropertiesSubstance.close();
-        isHeaderThermoPropSubst = false; }
+        isHeaderThermoPropSubst = false;
+        checkFile(fThermoPropertiesSubstance, fileThermoPropertiesSubstance); }
 }
 
 auto OutputToCSV::closePropertiesSolventFile ( ) ->void
 {
     if (fPropertiesSolvent.is_open()) { fPropertiesSolvent.close();
-        isHeaderPropSolv = false; }
+        isHeaderPropSolv = false;
+        checkFile(fPropertiesSolvent, filePropertiesSolvent); }
 }
 
 auto OutputToCSV::closeElectroPropertiesSolventFile ( ) ->void
 {
     if (fElectroPropertiesSolvent.is_open()) { fElectroPropertiesSolvent.close();
-        isHeaderElectroPropSolv = false; }
+        isHeaderElectroPropSolv = false;
+        checkFile(fElectroPropertiesSolvent, fileElectroPropertiesSolvent); }
 }
 
 auto OutputToCSV::openThermoPropertiesSubstanceFile (std::string fileName) ->void
@@ -84,7 +104,7 @@ auto OutputToCSV::openThermoPropertiesSubstanceFile (std::string fileName) ->voi
 
     std::string fullPath = outputFolderPath + "/" + fileName;
 
-    fThermoPropertiesSubstance.open( fullPath , std::ios::trunc );
+    openFile( fThermoPropertiesSubstance, fullPath );
 }
 
 auto OutputToCSV::openPropertiesSolventFile (std::string fileName) ->void
@@ -93,7 +113,7 @@ auto OutputToCSV::openPropertiesSolventFile (std::string fileName) ->void
 
     std::string fullPath = outputFolderPath + "/" + fileName;
 
-    fPropertiesSolvent.open( fullPath , std::ios::trunc );
+    openFile( fPropertiesSolvent, fullPath );
 }
 
 auto OutputToCSV::openElectroPropertiesSolventFile (std::string fileName) ->void
@@ -102,7 +122,7 @@ auto OutputToCSV::openElectroPropertiesSolventFile (std::string fileName) ->void
 
     std::string fullPath = outputFolderPath + "/" + fileName;
 
-    fElectroPropertiesSolvent.open( fullPath , std::ios::trunc );
+    openFile( fElectroPropertiesSolvent, fullPath );
 }
 
 auto OutputToCSV::writeThermoPropertiesSubstance (std::string symbol, double T, double P, ThermoPropertiesSubstance tps ) -> void
@@ -119,6 +139,7 @@ auto OutputToCSV::writeThermoPropertiesSubstance (std::string symbol, double T,
                                   tps.gibbs_energy     << c << tps.enthalpy         << c << tps.entropy << c <<
                                   tps.heat_capacity_cp << c << tps.heat_capacity_cv << c << tps.volume  << c <<
                                   tps.helmholtz_energy << c << tps.internal_energy  << std::endl;
+    checkFile(fThermoPropertiesSubstance, fileThermoPropertiesSubstance);
 }
 
 auto OutputToCSV::writePropertiesSolvent (std::string symbol, double T, double P, PropertiesSolvent ps ) -> void
@@ -134,6 +155,7 @@ auto OutputToCSV::writePropertiesSolvent (std::string symbol, double T, double P
     fPropertiesSolvent << symbol << c << T << c << P << c <<
                           ps.density   << c << ps.densityT  << c << ps.densityP << c << ps.densityTT << c <<
                           ps.densityTP << c << ps.densityPP << c << ps.Alpha    << c << ps.dAldT     << c << ps.Beta << std::endl;
+    checkFile(fPropertiesSolvent, filePropertiesSolvent);
 }
 
 auto OutputToCSV::writeElectroPropertiesSolvent (std::string symbol, double T, double P, ElectroPropertiesSolvent eps ) -> void
@@ -151,6 +173,7 @@ auto OutputToCSV::writeElectroPropertiesSolvent (std::string symbol, double T, d
                                  eps.bornX     << c << eps.bornY     << c << eps.bornZ     << c << eps.epsilon   << c <<
                                  eps.epsilonP  << c << eps.epsilonPP << c << eps.epsilonT  << c << eps.epsilonTP << c <<
                                  eps.epsilonTT << std::endl;
+    checkFile(fElectroPropertiesSolvent, fileElectroPropertiesSolvent);
 }
 
 }
-- 
2.43.0


From a4dd50a701060470b54ee6809e8cd842fee4bcbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:22 +0000
Subject: [PATCH 14/32] fix: one value per column in the electrostatic
 properties of the solvent

---
 ThermoFun/Common/OutputToCSV.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ThermoFun/Common/OutputToCSV.cpp b/ThermoFun/Common/OutputToCSV.cpp
index 36b0fcb..aa7736e 100644
--- a/ThermoFun/Common/OutputToCSV.cpp
+++ b/ThermoFun/Common/OutputToCSV.cpp
@@ -170,7 +170,7 @@ auto OutputToCSV::writeElectroPropertiesSolvent (std::string symbol, double T, d
 
     fElectroPropertiesSolvent << symbol << c << T << c << P << c <<
                                  eps.bornN     << c << eps.bornQ     << c << eps.bornU     << c << eps.bornX     << c <<
-                                 eps.bornX     << c << eps.bornY     << c << eps.bornZ     << c << eps.epsilon   << c <<
+                                 eps.bornY     << c << eps.bornZ     << c << eps.epsilon   << c <<
                                  eps.epsilonP  << c << eps.epsilonPP << c << eps.epsilonT  << c << eps.epsilonTP << c <<
                                  eps.epsilonTT << std::endl;
     checkFile(fElectroPropertiesSolvent, fileElectroPropertiesSolvent);
-- 
2.43.0


From c0ac7d5721e2cd32cdbaee4027005319fae696fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:33 +0000
Subject: [PATCH 15/32] fix: outputs are only written for complete results and
 grids, each value in its own cell

---
 ThermoFun/Batch/OutputBatch.cpp | 45 +++++++++++++++++++++++++++++++--
 ThermoFun/Batch/OutputBatch.h   |  2 ++
 2 files changed, 45 insertions(+), 2 deletions(-)

diff --git a/ThermoFun/Batch/OutputBatch.cpp b/ThermoFun/Batch/OutputBatch.cpp
index 8d35da3..2834259 100644
--- a/ThermoFun/Batch/OutputBatch.cpp
+++ b/ThermoFun/Batch/OutputBatch.cpp
@@ -91,6 +91,8 @@ auto find_and_replace(std::string source, std::string const& find, std::string c
 
 auto Output::toCSV(std::string filename) -> void
 {
+    checkResults();
+
     pimpl->writeFile( filename, [&]()
     {
         pimpl->fProperties << CSVHeader() << std::endl;
@@ -101,6 +103,8 @@ auto Output::toCSV(std::string filename) -> void
 
 auto Output::toCSVTransposed(std::string filename) -> void
 {
+    checkResults();
+
     pimpl->writeFile( filename, [&]()
     {
         pimpl->fProperties << CSVHeaderTransposed() << std::endl;
@@ -112,6 +116,10 @@ auto Output::toCSVTransposed(std::string filename) -> void
 auto Output::toCSVPropertyGrid(std::string filename) -> void
 {
     auto properties = pimpl->api.properties();
+
+    checkResults();
+    checkPropertyGrid();
+
     for (size_t i = 0; i<properties.size(); i++)
     {
         // the property name goes in front of the name of the file, after the folder
@@ -127,14 +135,47 @@ auto Output::toCSVPropertyGrid(std::string filename) -> void
     }
 }
 
+auto Output::checkResults() -> void
+{
+    auto results = pimpl->api.results();
+
+    bool complete = results.size() == pimpl->api.symbols().size() * pimpl->api.TPpairs().size();
+    for (const auto& result : results)
+        complete = complete && result.size() == pimpl->api.properties().size();
+
+    funErrorIf(!complete, "Output error", "The results do not have one value for each symbol, T-P pair, and property.", __LINE__, __FILE__);
+}
+
+auto Output::checkPropertyGrid() -> void
+{
+    if (!pimpl->api.outputSettings().loopOverTPpairsFirst)
+        return;
+
+    auto tpPairs = pimpl->api.TPpairs();
+    auto rows    = pimpl->api.Pressures();
+    auto columns = pimpl->api.Temperatures();
+    bool tThenP  = pimpl->api.outputSettings().loopTemperatureThenPressure;
+    if (tThenP)
+        std::swap(rows, columns);
+
+    bool complete = tpPairs.size() == rows.size() * columns.size();
+    for (size_t i = 0; complete && i < tpPairs.size(); i++)
+    {
+        auto r = rows[i / columns.size()], c = columns[i % columns.size()];
+        complete = tpPairs[i] == (tThenP ? std::vector<double>{r, c} : std::vector<double>{c, r});
+    }
+
+    funErrorIf(!complete, "Output error", "The T-P pairs do not form a complete grid in the order of the property grid.", __LINE__, __FILE__);
+}
+
 auto Output::toDouble() -> double
 {
-    return pimpl->api.results()[0][0].val;
+    return pimpl->api.results().at(0).at(0).val;
 }
 
 auto Output::toThermoScalar() -> Reaktoro_::ThermoScalar
 {
-    return pimpl->api.results()[0][0];
+    return pimpl->api.results().at(0).at(0);
 }
 
 auto Output::to2DVectorDouble() -> std::vector<std::vector<double>>
diff --git a/ThermoFun/Batch/OutputBatch.h b/ThermoFun/Batch/OutputBatch.h
index 16044de..093811d 100644
--- a/ThermoFun/Batch/OutputBatch.h
+++ b/ThermoFun/Batch/OutputBatch.h
@@ -66,6 +66,8 @@ private:
     struct Impl;
     std::shared_ptr<Impl> pimpl;
 
+    auto checkResults         () -> void;
+    auto checkPropertyGrid    () -> void;
     auto CSVHeader            () -> std::string;
     auto CSVHeaderTransposed  () -> std::string;
     auto CSVHeaderPropertyGrid() -> std::string;
-- 
2.43.0


From 38ac740c50af8a2ab7f820615413cd0b2174506d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:33 +0000
Subject: [PATCH 16/32] fix: batch raises an error for properties of another
 kind, endless increments, and lists which do not match

---
 ThermoFun/Batch/ThermoBatch.cpp | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/ThermoFun/Batch/ThermoBatch.cpp b/ThermoFun/Batch/ThermoBatch.cpp
index 4e73029..a2aa91c 100644
--- a/ThermoFun/Batch/ThermoBatch.cpp
+++ b/ThermoFun/Batch/ThermoBatch.cpp
@@ -7,6 +7,7 @@
 #include "ThermoProperties.h"
 #include "Database.h"
 #include "ThermoEngine.h"
+#include "Common/Exception.h"
 #include "Common/Units.hpp"
 
 #if _MSC_VER >= 1929
@@ -152,6 +153,8 @@ struct ThermoBatch::Impl
         std::vector<double> temperatures;
         std::vector<double> pressures;
 
+        funErrorIf((!(Tstep > 0) && Tmin < Tmax) || (!(Pstep > 0) && Pmin < Pmax), "Increment error", "The steps of temperature and pressure have to be positive.", __LINE__, __FILE__);
+
         do
         {
             p = p + Pstep;
@@ -172,10 +175,15 @@ struct ThermoBatch::Impl
         clearTPpairs();
         for (unsigned i=0; i <tpPairs.size(); i++)
         {
-            addTPpair(tpPairs[i][0], tpPairs[i][1]);
+            addTPpair(tpPairs[i].at(0), tpPairs[i].at(1));
         }
     }
 
+    auto checkSelected (const vThScalar& selected, std::string type) -> void
+    {
+        funErrorIf(selected.size() != properties.size(), "Unknown property", "One of the requested properties is not a property of " + type + ".", __LINE__, __FILE__);
+    }
+
     // select functions
     auto selectResultsSubst ( ThermoPropertiesSubstance tps ) -> vThScalar
     {
@@ -191,6 +199,7 @@ struct ThermoBatch::Impl
             if (name == "heat_capacity_cp")   {resultsSubst.push_back(tps.heat_capacity_cp);}
             if (name == "heat_capacity_cv")   {resultsSubst.push_back(tps.heat_capacity_cv);}
         }
+        checkSelected(resultsSubst, "substances");
         return resultsSubst;
     }
 
@@ -222,6 +231,7 @@ struct ThermoBatch::Impl
             if (name == "bornU")          {resultsSolvent.push_back(eps.bornU);}
             if (name == "bornX")          {resultsSolvent.push_back(eps.bornX);}
         }
+        checkSelected(resultsSolvent, "the solvent");
         return resultsSolvent;
     }
 
@@ -241,6 +251,7 @@ struct ThermoBatch::Impl
             if (name == "logKr")                       {resultsReac.push_back(tpr.log_equilibrium_constant);}
             if (name == "lnKr")                        {resultsReac.push_back(tpr.ln_equilibrium_constant);}
         }
+        checkSelected(resultsReac, "reactions");
         return resultsReac;
     }
 
@@ -519,14 +530,18 @@ auto ThermoBatch::setUnits(const std::map<std::string, std::string> &units)-> vo
 
 auto ThermoBatch::setPropertiesUnits(const vstr &properties, const vstr &units)-> void
 {
+    auto newUnits = pimpl->givenPropertyUnits;
     for (std::size_t i=0; i<properties.size(); i++)
-        setPropertyUnit(properties[i], units[i]);
+        newUnits.at(properties[i]) = units.at(i);
+    setUnits(newUnits);
 }
 
 auto ThermoBatch::setPropertiesDigits(const vstr &properties, const std::vector<int> &propDigits)-> void
 {
+    auto newDigits = pimpl->givenPropertyDigits;
     for (std::size_t i=0; i<properties.size(); i++)
-        setPropertyDigit(properties[i], propDigits[i]);
+        newDigits.at(properties[i]) = propDigits.at(i);
+    setDigits(newDigits);
 }
 
 auto ThermoBatch::setPropertyUnit(const std::string &property, const std::string &unit)-> void
-- 
2.43.0


From a91721fcf489f263a6e7fd1e6150ee752718ff52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:13 +0000
Subject: [PATCH 17/32] fix: working values of the HGK water model are not
 shared between threads

---
 ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp b/ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp
index 7e60a0b..2b2f011 100644
--- a/ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp
+++ b/ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp
@@ -225,7 +225,7 @@ return wp;
 *            comparisons are set and stored in COMMON /tolers/.     */
 
 
-ACONST  ac_ = { /* wm, gascon, tz, aa, uref, sref*/
+thread_local ACONST  ac_ = { /* wm, gascon, tz, aa, uref, sref*/
     0.1801520000e2, 0.46152200e0, 0.647073e3, 0.1e1,
     -0.4328455039e4, 0.76180802e1,  0., 0., 0.};
 
@@ -252,7 +252,7 @@ NCONST  nc_ ={ /* g(40), ii(40), jj(40), nc */
      1, 4, 4, 4, 0, 2, 0, 0},                        /* jj[40] */
     36};                                           /*  nc    */
 
-ELLCON  el_ = { /* g1, g2, gf */
+thread_local ELLCON  el_ = { /* g1, g2, gf */
     0.11e2, 0.44333333333333e2, 0.35e1, 0., 0., 0., 0., 0., 0.};
 
 BCONST  bc_ = { /* bp(10), bq(10) */
@@ -291,7 +291,7 @@ LIQICE  li_ = { /* sDli1, sPli1, sDli37, sPli37, sDIB30,
     0.145e3,
     0.102631640581853166397515716306e1};
 
-TPOINT  tt_ = {/* Utri,Stri,Htri,Atri,Gtri
+thread_local TPOINT  tt_ = {/* Utri,Stri,Htri,Atri,Gtri
                        Ttr, Ptripl, Dltrip, Dvtrip */
     0e0, 0e0, 0e0, 0.0e0, 0e0,
     2.7316e2,
-- 
2.43.0


From 0a340e08f7c72a1fbadc3b053eab81d4cc842c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:29 +0000
Subject: [PATCH 18/32] fix: the CG fluid model releases its working arrays
 when the pressure is too low for corrections

---
 ThermoFun/Substances/Gases/s_solmod2_.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ThermoFun/Substances/Gases/s_solmod2_.cpp b/ThermoFun/Substances/Gases/s_solmod2_.cpp
index f4dd39f..6c98199 100644
--- a/ThermoFun/Substances/Gases/s_solmod2_.cpp
+++ b/ThermoFun/Substances/Gases/s_solmod2_.cpp
@@ -1254,7 +1254,11 @@ long int TCGFcalc::CGActivCoefPT( double *X,double *param, double *act,
 	ro = ROTOTALMIX(P,T,paar);
 
 	if( ro < 0.0 )  // Too low pressure, no corrections will be done
+	{
+		delete[]xtmp;
+		delete[]Fx;
 		return ( -1 );
+	}
 
 	Z = P/(R*T*ro);
 	F0 = FTOTALMIX(T,ro,paar);
-- 
2.43.0


From 50beada979d18dbb635eb7c292030c21eca54411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:37 +0000
Subject: [PATCH 19/32] fix: work arrays of the gas models are released when
 memory runs out while they are set up

---
 ThermoFun/Substances/Gases/s_solmod2_.cpp | 440 ++++++++--------------
 ThermoFun/Substances/Gases/s_solmod_.h    |  10 +
 2 files changed, 160 insertions(+), 290 deletions(-)

diff --git a/ThermoFun/Substances/Gases/s_solmod2_.cpp b/ThermoFun/Substances/Gases/s_solmod2_.cpp
index 6c98199..95217e8 100644
--- a/ThermoFun/Substances/Gases/s_solmod2_.cpp
+++ b/ThermoFun/Substances/Gases/s_solmod2_.cpp
@@ -75,53 +75,32 @@ TPRSVcalc::~TPRSVcalc()
 /// allocate work arrays for pure fluid and fluid mixture properties
 void TPRSVcalc::alloc_internal()
 {
-	Eosparm = new double [NComp][6];
-	Pureparm = new double [NComp][4];
-	Fugpure = new double [NComp][6]();
-	Fugci = new double [NComp][4];
-	a = new double *[NComp];
-	b = new double *[NComp];
-	KK = new double *[NComp];
-	dKK = new double *[NComp];
-	d2KK = new double *[NComp];
-	AA = new double *[NComp];
+	Eosparm = workArray<double[6]>( NComp );
+	Pureparm = workArray<double[4]>( NComp );
+	Fugpure = workArray<double[6]>( NComp );
+	Fugci = workArray<double[4]>( NComp );
+	a = workArray<double *>( NComp );
+	b = workArray<double *>( NComp );
+	KK = workArray<double *>( NComp );
+	dKK = workArray<double *>( NComp );
+	d2KK = workArray<double *>( NComp );
+	AA = workArray<double *>( NComp );
 
     for (long int i=0; i<NComp; i++)
     {
-    	a[i] = new double[NComp];
-    	b[i] = new double[NComp];
-    	KK[i] = new double[NComp];
-    	dKK[i] = new double[NComp];
-    	d2KK[i] = new double[NComp];
-    	AA[i] = new double[NComp];
+    	a[i] = workArray<double>( NComp );
+    	b[i] = workArray<double>( NComp );
+    	KK[i] = workArray<double>( NComp );
+    	dKK[i] = workArray<double>( NComp );
+    	d2KK[i] = workArray<double>( NComp );
+    	AA[i] = workArray<double>( NComp );
     }
 }
 
 
 void TPRSVcalc::free_internal()
 {
-	long int i;
-
-	for (i=0; i<NComp; i++)
-	{
-		delete[]a[i];
-		delete[]b[i];
-		delete[]KK[i];
-		delete[]dKK[i];
-		delete[]d2KK[i];
-		delete[]AA[i];
-	}
-
-	delete[]Eosparm;
-	delete[]Pureparm;
-	delete[]Fugpure;
-	delete[]Fugci;
-	delete[]a;
-	delete[]b;
-	delete[]KK;
-	delete[]dKK;
-	delete[]d2KK;
-	delete[]AA;
+    // the work arrays are released together with the model
 }
 
 
@@ -1232,10 +1211,9 @@ long int TCGFcalc::CGFugacityPT( double *EoSparam, double *EoSparPT, double &Fug
 long int TCGFcalc::CGActivCoefPT( double *X,double *param, double *act,
 		   unsigned long int NN,   double Pbar, double T, double &roro )
 {
-	double *xtmp,*Fx;
+	std::vector<double> xtmpArr( NN ), FxArr( NN );
+	double *xtmp = xtmpArr.data(), *Fx = FxArr.data();
 	double P = Pbar/10.;
-	xtmp = new double [NN];
-	Fx = new double [NN];
 
 	if(!paar)
 		paar = new  EOSPARAM(X, param, NN);
@@ -1254,11 +1232,7 @@ long int TCGFcalc::CGActivCoefPT( double *X,double *param, double *act,
 	ro = ROTOTALMIX(P,T,paar);
 
 	if( ro < 0.0 )  // Too low pressure, no corrections will be done
-	{
-		delete[]xtmp;
-		delete[]Fx;
 		return ( -1 );
-	}
 
 	Z = P/(R*T*ro);
 	F0 = FTOTALMIX(T,ro,paar);
@@ -1299,8 +1273,6 @@ long int TCGFcalc::CGActivCoefPT( double *X,double *param, double *act,
 
 	// GMix+=F0 + ax;
 	// MLPutRealList(stdlink,act,paar.NCmp());
-	delete[]xtmp;
-	delete[]Fx;
 	roro = ro;  // added, 21.06.2008 (TW)
 
 	return 0;  // changed, 21.06.2008 (TW)
@@ -1314,7 +1286,8 @@ long int TCGFcalc::CGResidualFunct( double *X, double *param, double *param1, un
 {
 	double F0, Z, F1, vmix;
 	double delta = DELTA;
-	double *xtmp = new double [NN];
+	std::vector<double> xtmpArr( NN );
+	double *xtmp = xtmpArr.data();
 
 	if(!paar)
 		paar = new  EOSPARAM(X, param, NN);
@@ -1345,7 +1318,6 @@ long int TCGFcalc::CGResidualFunct( double *X, double *param, double *param1, un
 	vmix = Z*R_CONST*Tk/Pbar;
 	Vrs = vmix;
 
-    delete[]xtmp;
     return 0;
 
 }
@@ -1359,9 +1331,8 @@ long int TCGFcalc::CGActivCoefRhoT( double *X, double *param, double *act,
 	double   F0,Z,F1,GMix,fideal;
 	double delta = DELTA,ax,dx,tmp;
 	long int i;
-	double *Fx,*xtmp;
-	xtmp = new double [NN];
-	Fx = new double [NN];
+	std::vector<double> xtmpArr( NN ), FxArr( NN );
+	double *xtmp = xtmpArr.data(), *Fx = FxArr.data();
 
 	if(!paar)
 		paar = new EOSPARAM(X, param, NN);
@@ -1415,8 +1386,6 @@ long int TCGFcalc::CGActivCoefRhoT( double *X, double *param, double *act,
 		}
 	};
 
-	delete[]xtmp;
-	delete[]Fx;
 	return 0;
     // MLPutRealList(stdlink,act,paar.NCmp());
    }
@@ -1606,10 +1575,10 @@ double TCGFcalc::K23_13( double T, double ro )
 double TCGFcalc::DENSITY( double *X, double *param, unsigned long NN, double Pbar, double T )
 {
 	double P = Pbar * 0.1;
-	double *xtmp;
+	std::vector<double> xtmpArr( NN );
+	double *xtmp = xtmpArr.data();
 	double ro;
 
-	xtmp = new double [NN];
 	if( !paar1 )
 		paar1 = new EOSPARAM(X,param,NN);
 	else
@@ -1620,7 +1589,6 @@ double TCGFcalc::DENSITY( double *X, double *param, unsigned long NN, double Pba
 	paar1->ParamMix(xtmp);
 	ro = ROTOTALMIX(P,T,paar1);
 
-	delete [] xtmp;
 	if( ro < 0. )
 		Error( ""," Error - density cannot be found at this T,P" );
 	return ro;
@@ -1631,8 +1599,8 @@ double TCGFcalc::DENSITY( double *X, double *param, unsigned long NN, double Pba
 double TCGFcalc::PRESSURE( double *X,double *param,
 		unsigned long int NN,double ro, double T )
 {
-	double *xtmp;
-	xtmp = new double [NN];
+	std::vector<double> xtmpArr( NN );
+	double *xtmp = xtmpArr.data();
 
 	if( !paar1 )
 		paar1 = new EOSPARAM(X,param,NN);
@@ -1643,7 +1611,6 @@ double TCGFcalc::PRESSURE( double *X,double *param,
 	copy(paar1->XX0,xtmp,paar1->NCmp());
 	paar1->ParamMix(xtmp);
 	double P = PTOTALMIX(T,ro,paar1);
-	delete [] xtmp;
 	return P*10.;
 }
 
@@ -2322,8 +2289,9 @@ void EOSPARAM::free()
 
 	if ( NComp > 0)
 	{
-		for ( i=0;i<NComp;i++ )
-			delete[]mixpar[i];
+		if ( mixpar )
+			for ( i=0;i<NComp;i++ )
+				delete[]mixpar[i];
 		delete[]mixpar;
 
 		delete[]epspar;
@@ -2347,21 +2315,31 @@ void EOSPARAM::allocate()
 {
 	long int i;
 
-	mixpar = new double*[NComp];
-	for ( i=0; i<NComp; i++ )
-		mixpar[i] = new double[NComp];
+	mixpar = 0;
+	epspar = sig3par = XX = eps = eps05 = sigpar = mpar = apar = aredpar = m2par = XX0 = 0;
 
-	epspar = new double[NComp];
-	sig3par = new double[NComp];
-	XX = new double[NComp];
-	eps = new double[NComp];
-	eps05 = new double[NComp];
-	sigpar = new double[NComp];
-	mpar = new double[NComp];
-  	apar = new double[NComp];
-	aredpar = new double[NComp];
-	m2par = new double[NComp];
-	XX0 = new double[NComp];
+	try
+	{
+		mixpar = new double*[NComp]();
+		for ( i=0; i<NComp; i++ )
+			mixpar[i] = new double[NComp];
+		epspar = new double[NComp];
+		sig3par = new double[NComp];
+		XX = new double[NComp];
+		eps = new double[NComp];
+		eps05 = new double[NComp];
+		sigpar = new double[NComp];
+		mpar = new double[NComp];
+		apar = new double[NComp];
+		aredpar = new double[NComp];
+		m2par = new double[NComp];
+		XX0 = new double[NComp];
+	}
+	catch(...)
+	{
+		free();
+		throw;
+	}
 }
 
 
@@ -2488,25 +2466,25 @@ TSRKcalc::~TSRKcalc()
 /// allocate work arrays for pure fluid and fluid mixture properties
 void TSRKcalc::alloc_internal()
 {
-	Eosparm = new double [NComp][4];
-	Pureparm = new double [NComp][4];
-	Fugpure = new double [NComp][6]();
-	Fugci = new double [NComp][4];
-	a = new double *[NComp];
-	b = new double *[NComp];
-	KK = new double *[NComp];
-	dKK = new double *[NComp];
-	d2KK = new double *[NComp];
-	AA = new double *[NComp];
+	Eosparm = workArray<double[4]>( NComp );
+	Pureparm = workArray<double[4]>( NComp );
+	Fugpure = workArray<double[6]>( NComp );
+	Fugci = workArray<double[4]>( NComp );
+	a = workArray<double *>( NComp );
+	b = workArray<double *>( NComp );
+	KK = workArray<double *>( NComp );
+	dKK = workArray<double *>( NComp );
+	d2KK = workArray<double *>( NComp );
+	AA = workArray<double *>( NComp );
 
 	for (long int i=0; i<NComp; i++)
 	{
-		a[i] = new double[NComp];
-		b[i] = new double[NComp];
-		KK[i] = new double[NComp];
-		dKK[i] = new double[NComp];
-		d2KK[i] = new double[NComp];
-		AA[i] = new double[NComp];
+		a[i] = workArray<double>( NComp );
+		b[i] = workArray<double>( NComp );
+		KK[i] = workArray<double>( NComp );
+		dKK[i] = workArray<double>( NComp );
+		d2KK[i] = workArray<double>( NComp );
+		AA[i] = workArray<double>( NComp );
 	}
 }
 
@@ -2514,29 +2492,7 @@ void TSRKcalc::alloc_internal()
 
 void TSRKcalc::free_internal()
 {
-	long int i;
-
-	for (i=0; i<NComp; i++)
-	{
-		delete[]a[i];
-		delete[]b[i];
-		delete[]KK[i];
-		delete[]dKK[i];
-		delete[]d2KK[i];
-		delete[]AA[i];
-	}
-
-	delete[]Eosparm;
-	delete[]Pureparm;
-	delete[]Fugpure;
-	delete[]Fugci;
-	delete[]a;
-	delete[]b;
-	delete[]KK;
-	delete[]dKK;
-	delete[]d2KK;
-	delete[]AA;
-
+    // the work arrays are released together with the model
 }
 
 
@@ -3293,25 +3249,25 @@ TPR78calc::~TPR78calc()
 ///  allocate work arrays for pure fluid and fluid mixture properties
 void TPR78calc::alloc_internal()
 {
-	Eosparm = new double [NComp][4];
-	Pureparm = new double [NComp][4];
-	Fugpure = new double [NComp][6]();
-	Fugci = new double [NComp][4];
-	a = new double *[NComp];
-	b = new double *[NComp];
-	KK = new double *[NComp];
-	dKK = new double *[NComp];
-	d2KK = new double *[NComp];
-	AA = new double *[NComp];
+	Eosparm = workArray<double[4]>( NComp );
+	Pureparm = workArray<double[4]>( NComp );
+	Fugpure = workArray<double[6]>( NComp );
+	Fugci = workArray<double[4]>( NComp );
+	a = workArray<double *>( NComp );
+	b = workArray<double *>( NComp );
+	KK = workArray<double *>( NComp );
+	dKK = workArray<double *>( NComp );
+	d2KK = workArray<double *>( NComp );
+	AA = workArray<double *>( NComp );
 
 	for (long int i=0; i<NComp; i++)
 	{
-		a[i] = new double[NComp];
-		b[i] = new double[NComp];
-		KK[i] = new double[NComp];
-		dKK[i] = new double[NComp];
-		d2KK[i] = new double[NComp];
-		AA[i] = new double[NComp];
+		a[i] = workArray<double>( NComp );
+		b[i] = workArray<double>( NComp );
+		KK[i] = workArray<double>( NComp );
+		dKK[i] = workArray<double>( NComp );
+		d2KK[i] = workArray<double>( NComp );
+		AA[i] = workArray<double>( NComp );
 	}
 }
 
@@ -3319,29 +3275,7 @@ void TPR78calc::alloc_internal()
 
 void TPR78calc::free_internal()
 {
-	long int i;
-
-	for (i=0; i<NComp; i++)
-	{
-		delete[]a[i];
-		delete[]b[i];
-		delete[]KK[i];
-		delete[]dKK[i];
-		delete[]d2KK[i];
-		delete[]AA[i];
-	}
-
-	delete[]Eosparm;
-	delete[]Pureparm;
-	delete[]Fugpure;
-	delete[]Fugci;
-	delete[]a;
-	delete[]b;
-	delete[]KK;
-	delete[]dKK;
-	delete[]d2KK;
-	delete[]AA;
-
+    // the work arrays are released together with the model
 }
 
 
@@ -4117,30 +4051,30 @@ TCORKcalc::~TCORKcalc()
 /// allocate work arrays for pure fluid and fluid mixture properties
 void TCORKcalc::alloc_internal()
 {
-    EosCode = new char[NComp];
-    phi = new double [NComp];
-    dphi = new double [NComp];
-    d2phi = new double [NComp];
-    dphip = new double [NComp];
-    Eosparm = new double [NComp][2];
-    Fugpure = new double [NComp][6]();
-    Fugci = new double [NComp][4];
-    Rho = new double [NComp][11];
-    A = new double *[NComp];
-    W = new double *[NComp];
-    B = new double *[NComp];
-    dB = new double *[NComp];
-    d2B = new double *[NComp];
-    dBp = new double *[NComp];
+    EosCode = workArray<char>( NComp );
+    phi = workArray<double>( NComp );
+    dphi = workArray<double>( NComp );
+    d2phi = workArray<double>( NComp );
+    dphip = workArray<double>( NComp );
+    Eosparm = workArray<double[2]>( NComp );
+    Fugpure = workArray<double[6]>( NComp );
+    Fugci = workArray<double[4]>( NComp );
+    Rho = workArray<double[11]>( NComp );
+    A = workArray<double *>( NComp );
+    W = workArray<double *>( NComp );
+    B = workArray<double *>( NComp );
+    dB = workArray<double *>( NComp );
+    d2B = workArray<double *>( NComp );
+    dBp = workArray<double *>( NComp );
 
     for (long int i=0; i<NComp; i++)
     {
-        A[i] = new double [NComp];
-        W[i] = new double [NComp];
-        B[i] = new double [NComp];
-        dB[i] = new double [NComp];
-        d2B[i] = new double [NComp];
-        dBp[i] = new double [NComp];
+        A[i] = workArray<double>( NComp );
+        W[i] = workArray<double>( NComp );
+        B[i] = workArray<double>( NComp );
+        dB[i] = workArray<double>( NComp );
+        d2B[i] = workArray<double>( NComp );
+        dBp[i] = workArray<double>( NComp );
     }
 }
 
@@ -4148,33 +4082,7 @@ void TCORKcalc::alloc_internal()
 
 void TCORKcalc::free_internal()
 {
-    long int i;
-
-    for (i=0; i<NComp; i++)
-    {
-        delete[]A[i];
-        delete[]W[i];
-        delete[]B[i];
-        delete[]dB[i];
-        delete[]d2B[i];
-        delete[]dBp[i];
-    }
-
-    delete[]EosCode;
-    delete[]phi;
-    delete[]dphi;
-    delete[]d2phi;
-    delete[]dphip;
-    delete[]Eosparm;
-    delete[]Fugpure;
-    delete[]Fugci;
-    delete[]Rho;
-    delete[]A;
-    delete[]W;
-    delete[]B;
-    delete[]dB;
-    delete[]d2B;
-    delete[]dBp;
+    // the work arrays are released together with the model
 }
 
 
@@ -5101,52 +5009,52 @@ void TSTPcalc::alloc_internal()
 {
     long int k;
 
-    EosCode = new char[NComp];
-    Tc = new double [NComp];
-    Pc = new double [NComp];
-    Psat = new double [NComp];
-    Rhol = new double [NComp];
-    Rhov = new double [NComp];
-    Mw = new double [NComp];
-    Phi = new double [NComp];
-    dPhiD = new double [NComp];
-    dPhiDD = new double [NComp];
-    dPhiT = new double [NComp];
-    dPhiTT = new double [NComp];
-    dPhiDT = new double [NComp];
-    dPhiDDD = new double [NComp];
-    dPhiDDT = new double [NComp];
-    dPhiDTT = new double [NComp];
-    phi = new double [NComp];
-    dphi = new double [NComp];
-    d2phi = new double [NComp];
-    dphip = new double [NComp];
-    lng = new double [NComp];
-    Fugpure = new double [NComp][7]();
-    Rho = new double [NComp][11];
-    cfh = new double *[10];
-    cfc = new double *[10];
-    A = new double *[NComp];
-    W = new double *[NComp];
-    B = new double *[NComp];
-    dB = new double *[NComp];
-    d2B = new double *[NComp];
-    dBp = new double *[NComp];
+    EosCode = workArray<char>( NComp );
+    Tc = workArray<double>( NComp );
+    Pc = workArray<double>( NComp );
+    Psat = workArray<double>( NComp );
+    Rhol = workArray<double>( NComp );
+    Rhov = workArray<double>( NComp );
+    Mw = workArray<double>( NComp );
+    Phi = workArray<double>( NComp );
+    dPhiD = workArray<double>( NComp );
+    dPhiDD = workArray<double>( NComp );
+    dPhiT = workArray<double>( NComp );
+    dPhiTT = workArray<double>( NComp );
+    dPhiDT = workArray<double>( NComp );
+    dPhiDDD = workArray<double>( NComp );
+    dPhiDDT = workArray<double>( NComp );
+    dPhiDTT = workArray<double>( NComp );
+    phi = workArray<double>( NComp );
+    dphi = workArray<double>( NComp );
+    d2phi = workArray<double>( NComp );
+    dphip = workArray<double>( NComp );
+    lng = workArray<double>( NComp );
+    Fugpure = workArray<double[7]>( NComp );
+    Rho = workArray<double[11]>( NComp );
+    cfh = workArray<double *>( 10 );
+    cfc = workArray<double *>( 10 );
+    A = workArray<double *>( NComp );
+    W = workArray<double *>( NComp );
+    B = workArray<double *>( NComp );
+    dB = workArray<double *>( NComp );
+    d2B = workArray<double *>( NComp );
+    dBp = workArray<double *>( NComp );
 
     for (k=0; k<10; k++)
     {
-        cfh[k] = new double [6];
-        cfc[k] = new double [6];
+        cfh[k] = workArray<double>( 6 );
+        cfc[k] = workArray<double>( 6 );
     }
 
     for (k=0; k<NComp; k++)
     {
-        A[k] = new double [NComp];
-        W[k] = new double [NComp];
-        B[k] = new double [NComp];
-        dB[k] = new double [NComp];
-        d2B[k] = new double [NComp];
-        dBp[k] = new double [NComp];
+        A[k] = workArray<double>( NComp );
+        W[k] = workArray<double>( NComp );
+        B[k] = workArray<double>( NComp );
+        dB[k] = workArray<double>( NComp );
+        d2B[k] = workArray<double>( NComp );
+        dBp[k] = workArray<double>( NComp );
     }
 
 }
@@ -5155,55 +5063,7 @@ void TSTPcalc::alloc_internal()
 
 void TSTPcalc::free_internal()
 {
-    long int k;
-
-    for (k=0; k<10; k++)
-    {
-        delete[]cfh[k];
-        delete[]cfc[k];
-    }
-
-    for (k=0; k<NComp; k++)
-    {
-        delete[]A[k];
-        delete[]W[k];
-        delete[]B[k];
-        delete[]dB[k];
-        delete[]d2B[k];
-        delete[]dBp[k];
-    }
-
-    delete[]EosCode;
-    delete[]Tc;
-    delete[]Pc;
-    delete[]Psat;
-    delete[]Rhol;
-    delete[]Rhov;
-    delete[]Mw;
-    delete[]Phi;
-    delete[]dPhiD;
-    delete[]dPhiDD;
-    delete[]dPhiT;
-    delete[]dPhiTT;
-    delete[]dPhiDT;
-    delete[]dPhiDDD;
-    delete[]dPhiDDT;
-    delete[]dPhiDTT;
-    delete[]phi;
-    delete[]dphi;
-    delete[]d2phi;
-    delete[]dphip;
-    delete[]lng;
-    delete[]Fugpure;
-    delete[]Rho;
-    delete[]cfh;
-    delete[]cfc;
-    delete[]A;
-    delete[]W;
-    delete[]B;
-    delete[]dB;
-    delete[]d2B;
-    delete[]dBp;
+    // the work arrays are released together with the model
 }
 
 
diff --git a/ThermoFun/Substances/Gases/s_solmod_.h b/ThermoFun/Substances/Gases/s_solmod_.h
index 7c6aa0a..80732ec 100644
--- a/ThermoFun/Substances/Gases/s_solmod_.h
+++ b/ThermoFun/Substances/Gases/s_solmod_.h
@@ -30,6 +30,7 @@
 #define _s_solmod_h_
 
 #include <vector>
+#include <memory>
 
 namespace solmod
  {
@@ -196,6 +197,15 @@ class TSolMod
    double **fjs;     ///< array of site activity coefficients [NComp][NSub]
    double *aSitFj; ///< new: pointer to return table of site activity coefficients NComp x NSub
 
+        /// Allocates a work array, which is released together with the model (also if its constructor fails)
+        template <class T> T* workArray( long int n )
+        {
+            T* arr = new T[n]();
+            workArrays.push_back( std::shared_ptr<void>( arr, []( void* p ) { delete[] static_cast<T*>(p); } ) );
+            return arr;
+        }
+        std::vector<std::shared_ptr<void>> workArrays;
+
         // functions for calculation of configurational term for multisite ideal mixing
         void alloc_multisite();
         long int init_multisite();
-- 
2.43.0


From db13735aadcc622d5dc264202c1c0cdd325b8c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:49 +0000
Subject: [PATCH 20/32] fix: copied and assigned batches are independent of
 their source

---
 ThermoFun/Batch/OutputBatch.cpp |  3 +--
 ThermoFun/Batch/ThermoBatch.cpp | 28 +++++++++++++++++++---------
 ThermoFun/Batch/ThermoBatch.h   | 28 ++++++++++++++++++----------
 3 files changed, 38 insertions(+), 21 deletions(-)

diff --git a/ThermoFun/Batch/OutputBatch.cpp b/ThermoFun/Batch/OutputBatch.cpp
index 2834259..d6571ee 100644
--- a/ThermoFun/Batch/OutputBatch.cpp
+++ b/ThermoFun/Batch/OutputBatch.cpp
@@ -67,9 +67,8 @@ struct Output::Impl
     }
 };
 
-Output::Output(const ThermoBatch& batch_)
+Output::Output(const ThermoBatch& batch)
 {
-    ThermoBatch batch(batch_);
     pimpl = std::make_shared<Impl>(BatchCall{ batch.symbols(), batch.properties(), batch.outputSettings(),
                                               batch.units(), batch.digits(), batch.TPpairs(),
                                               batch.Temperatures(), batch.Pressures(), batch.results() });
diff --git a/ThermoFun/Batch/ThermoBatch.cpp b/ThermoFun/Batch/ThermoBatch.cpp
index a2aa91c..fe5ea7d 100644
--- a/ThermoFun/Batch/ThermoBatch.cpp
+++ b/ThermoFun/Batch/ThermoBatch.cpp
@@ -360,6 +360,16 @@ ThermoBatch::ThermoBatch(std::string filename)
     : pimpl(new Impl(filename))
 {}
 
+ThermoBatch::ThermoBatch(const ThermoBatch& other)
+    : pimpl(new Impl(*other.pimpl))
+{}
+
+auto ThermoBatch::operator=(const ThermoBatch& other) -> ThermoBatch&
+{
+    pimpl = std::make_shared<Impl>(*other.pimpl);
+    return *this;
+}
+
 auto ThermoBatch::thermoPropertiesSubstance(double T, double P, std::string symbol, std::string property) -> Output
 {
     pimpl->addSymbolsProperties({symbol}, {property});
@@ -594,47 +604,47 @@ auto ThermoBatch::setPressureIncrement (const double& Pmin, const double& Pmax,
 
 // Private
 // get functions
-auto ThermoBatch::symbols() -> const vstr
+auto ThermoBatch::symbols() const -> const vstr
 {
     return pimpl->symbols;
 }
 
-auto ThermoBatch::outputSettings() -> const BatchPreferences
+auto ThermoBatch::outputSettings() const -> const BatchPreferences
 {
     return pimpl->outSettings;
 }
 
-auto ThermoBatch::TPpairs() -> const vvd
+auto ThermoBatch::TPpairs() const -> const vvd
 {
     return pimpl->tpPairs;
 }
 
-auto ThermoBatch::Temperatures() -> const std::vector <double>
+auto ThermoBatch::Temperatures() const -> const std::vector <double>
 {
     return pimpl->Ts;
 }
 
-auto ThermoBatch::Pressures() -> const std::vector <double>
+auto ThermoBatch::Pressures() const -> const std::vector <double>
 {
     return pimpl->Ps;
 }
 
-auto ThermoBatch::properties() -> const vstr
+auto ThermoBatch::properties() const -> const vstr
 {
     return pimpl->properties;
 }
 
-auto ThermoBatch::units() -> const std::map<std::string, std::string>
+auto ThermoBatch::units() const -> const std::map<std::string, std::string>
 {
     return pimpl->givenPropertyUnits;
 }
 
-auto ThermoBatch::digits() -> const std::map<std::string, int>
+auto ThermoBatch::digits() const -> const std::map<std::string, int>
 {
     return pimpl->givenPropertyDigits;
 }
 
-auto ThermoBatch::results() -> const vvThScalar
+auto ThermoBatch::results() const -> const vvThScalar
 {
     return pimpl->results;
 }
diff --git a/ThermoFun/Batch/ThermoBatch.h b/ThermoFun/Batch/ThermoBatch.h
index 3fe5563..9aeacf3 100644
--- a/ThermoFun/Batch/ThermoBatch.h
+++ b/ThermoFun/Batch/ThermoBatch.h
@@ -110,6 +110,14 @@ public:
     ///
     ThermoBatch(const ThermoEngine &engine);
 
+    /// Construct a copy of a ThermoBatch, independent of the original
+    /// \param other batch to be copied
+    ThermoBatch(const ThermoBatch &other);
+
+    /// Assign a copy of another ThermoBatch, independent of the original
+    /// \param other batch to be copied
+    auto operator=(const ThermoBatch &other) -> ThermoBatch&;
+
     auto setUnits                   (const std::map<std::string, std::string> &units)-> void;
     auto setDigits                  (const std::map<std::string, int> &digits)-> void;
     auto setPropertiesUnits         (const vstr &properties, const vstr &units)-> void;
@@ -154,16 +162,16 @@ private:
     std::shared_ptr<Impl> pimpl;
 
     // Substances
-    auto symbols        () -> const vstr;
-    auto results        () -> const vvThScalar;
-
-    auto TPpairs        () -> const vvd;
-    auto Temperatures   () -> const std::vector <double>;
-    auto Pressures      () -> const std::vector <double>;
-    auto properties     () -> const vstr;
-    auto units          () -> const std::map<std::string, std::string>;
-    auto digits         () -> const std::map<std::string, int>;
-    auto outputSettings () -> const BatchPreferences;
+    auto symbols        () const -> const vstr;
+    auto results        () const -> const vvThScalar;
+
+    auto TPpairs        () const -> const vvd;
+    auto Temperatures   () const -> const std::vector <double>;
+    auto Pressures      () const -> const std::vector <double>;
+    auto properties     () const -> const vstr;
+    auto units          () const -> const std::map<std::string, std::string>;
+    auto digits         () const -> const std::map<std::string, int>;
+    auto outputSettings () const -> const BatchPreferences;
 };
 
 const std::map<std::string, const std::string> defaultPropertyNames =
-- 
2.43.0


From ecb4e5e51a599b3a9ebd4cc30c00164bee4af54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:49 +0000
Subject: [PATCH 21/32] fix: batch units, digits and preferences are unchanged
 when setting them fails

---
 ThermoFun/Batch/ThermoBatch.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ThermoFun/Batch/ThermoBatch.cpp b/ThermoFun/Batch/ThermoBatch.cpp
index fe5ea7d..ead0ca3 100644
--- a/ThermoFun/Batch/ThermoBatch.cpp
+++ b/ThermoFun/Batch/ThermoBatch.cpp
@@ -530,12 +530,14 @@ auto ThermoBatch::thermoPropertiesReaction(vvd tpPairs, vstr symbols, vstr prope
 // Set functions
 auto ThermoBatch::setDigits(const std::map<std::string, int> &propDigits)-> void
 {
-    pimpl->givenPropertyDigits = propDigits;
+    auto newDigits = propDigits; // nothing is changed if the copy fails
+    pimpl->givenPropertyDigits.swap(newDigits);
 }
 
 auto ThermoBatch::setUnits(const std::map<std::string, std::string> &units)-> void
 {
-    pimpl->givenPropertyUnits = units;
+    auto newUnits = units; // nothing is changed if the copy fails
+    pimpl->givenPropertyUnits.swap(newUnits);
 }
 
 auto ThermoBatch::setPropertiesUnits(const vstr &properties, const vstr &units)-> void
@@ -572,7 +574,8 @@ auto ThermoBatch::setPropertyUnitDigit(const std::string &property, const std::s
 
 auto ThermoBatch::setBatchPreferences(const BatchPreferences &value) -> void
 {
-    pimpl->outSettings = value;
+    auto newSettings = value; // nothing is changed if the copy fails
+    std::swap(pimpl->outSettings, newSettings);
 }
 
 BatchPreferences& ThermoBatch::preferences() {
-- 
2.43.0


From d46738b299b37f4c0112131657ed0ad2948f3e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:50 +0000
Subject: [PATCH 22/32] fix: elements created or changed through a reference
 reach the formula parser

---
 ThermoFun/Database.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/ThermoFun/Database.cpp b/ThermoFun/Database.cpp
index 6c040d7..c5e4ae3 100644
--- a/ThermoFun/Database.cpp
+++ b/ThermoFun/Database.cpp
@@ -84,6 +84,14 @@ struct Database::Impl
         }
     }
 
+    /// elements for the formula parser, including those created or changed through a reference
+    auto currentDBElements() -> ChemicalFun::DBElements&
+    {
+        for (auto& e : elements_map)
+            setDBElement(e.second);
+        return all_elements;
+    }
+
     auto elementKeyToElement(ChemicalFun::ElementKey elementKey) -> Element
     {
         auto itrdb = all_elements.elements().find(elementKey);
@@ -670,6 +678,7 @@ auto Database::parseSubstanceFormula(std::string formula_) const -> std::map<Ele
     ChemicalFun::FormulaToken formula(formula_);
     // ??? Do we need props, do not save
     //auto props = formula.properties(pimpl->all_elements.elements());
+    pimpl->currentDBElements();
 
     for (const auto& element : formula.getStoichCoefficients())
     {
@@ -682,12 +691,13 @@ auto Database::parseSubstanceFormula(std::string formula_) const -> std::map<Ele
 
 auto Database::elementalEntropyFormula(std::string formula) const -> double
 {
-    ChemicalFun::FormulaProperties prop = pimpl->all_elements.formulasProperties(formula);
+    ChemicalFun::FormulaProperties prop = pimpl->currentDBElements().formulasProperties(formula);
     return prop.elemental_entropy;
 }
 
 auto Database::setSubstancesChargeFromFromula() -> void
 {
+    pimpl->currentDBElements();
     for (auto& s: pimpl->substances_map)
     {
 //        auto js = s.second.jsonString();
-- 
2.43.0


From 0d0b653c1088de7862c7a81f6d8a478ec38d5a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:55 +0000
Subject: [PATCH 23/32] fix: energies and cv of a reaction from its reactants
 are sums over all reactants

---
 ThermoFun/ThermoEngine.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ThermoFun/ThermoEngine.cpp b/ThermoFun/ThermoEngine.cpp
index c092e55..6e80f29 100644
--- a/ThermoFun/ThermoEngine.cpp
+++ b/ThermoFun/ThermoEngine.cpp
@@ -886,9 +886,9 @@ struct ThermoEngine::Impl
             tpr.reaction_volume             += tps.volume*coeff;
             tpr.ln_equilibrium_constant     = tpr.reaction_gibbs_energy / -(R_CONSTANT*(T));
             tpr.log_equilibrium_constant    = tpr.ln_equilibrium_constant * ln_to_lg;
-            tpr.reaction_heat_capacity_cv = tps.heat_capacity_cv*coeff;
-            tpr.reaction_internal_energy  = tps.internal_energy*coeff;
-            tpr.reaction_helmholtz_energy = tps.helmholtz_energy*coeff;
+            tpr.reaction_heat_capacity_cv   += tps.heat_capacity_cv*coeff;
+            tpr.reaction_internal_energy    += tps.internal_energy*coeff;
+            tpr.reaction_helmholtz_energy   += tps.helmholtz_energy*coeff;
 
             setMessage(tps.heat_capacity_cp.sta.first, "Cp of component " + substance, message+tps.heat_capacity_cp.sta.second, tpr.reaction_heat_capacity_cp.sta.second);
             setMessage(tps.gibbs_energy.sta.first,     "G0 of component " + substance, message+tps.gibbs_energy.sta.second,     tpr.reaction_gibbs_energy.sta.second);
-- 
2.43.0


From 98e8e49e4449480c82ebeefff0348b2d68786ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:55 +0000
Subject: [PATCH 24/32] fix: a substance defined by a reaction it does not take
 part in raises an error

---
 ThermoFun/ThermoEngine.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ThermoFun/ThermoEngine.cpp b/ThermoFun/ThermoEngine.cpp
index 6e80f29..6ae12be 100644
--- a/ThermoFun/ThermoEngine.cpp
+++ b/ThermoFun/ThermoEngine.cpp
@@ -678,6 +678,10 @@ struct ThermoEngine::Impl
 
             reactants = reaction.reactants();
 
+            // the properties of the substance follow from those of the reaction only if it takes part in it
+            if (reactants.find(subst.symbol()) == reactants.end() || reactants[subst.symbol()] == 0.0)
+                errorReactionNotDefined(subst.symbol() + " (not a reactant of " + reactionSymbol + ")", __LINE__, __FILE__);
+
             for (const auto& reactant : reactants)
             {
                 if (reactant.first != subst.symbol())
-- 
2.43.0


From 92dbe157b74da95f7e90679988a46e95d9355efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:55 +0000
Subject: [PATCH 25/32] fix: increments do not add a point beyond the maximum
 because of rounding

---
 ThermoFun/Batch/ThermoBatch.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ThermoFun/Batch/ThermoBatch.cpp b/ThermoFun/Batch/ThermoBatch.cpp
index ead0ca3..8f0d76f 100644
--- a/ThermoFun/Batch/ThermoBatch.cpp
+++ b/ThermoFun/Batch/ThermoBatch.cpp
@@ -159,13 +159,13 @@ struct ThermoBatch::Impl
         {
             p = p + Pstep;
             pressures.push_back(p);
-        } while (p < Pmax);
+        } while (p < Pmax - 1e-6*Pstep); // the sum of the steps is not exact
 
         do
         {
             t = t + Tstep;
             temperatures.push_back(t);
-        } while (t < Tmax);
+        } while (t < Tmax - 1e-6*Tstep);
 
         addTPpairs(temperatures, pressures);
     }
-- 
2.43.0


From 9fecd427a3d9e5fbcb85612ff9fbd8d0a6172090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:05 +0000
Subject: [PATCH 26/32] fix: the formula parser no longer knows elements whose
 record was overwritten

---
 ThermoFun/Database.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ThermoFun/Database.cpp b/ThermoFun/Database.cpp
index c5e4ae3..dcda9e8 100644
--- a/ThermoFun/Database.cpp
+++ b/ThermoFun/Database.cpp
@@ -87,6 +87,8 @@ struct Database::Impl
     /// elements for the formula parser, including those created or changed through a reference
     auto currentDBElements() -> ChemicalFun::DBElements&
     {
+        // not those of records overwritten since, which may have had another class or isotope
+        all_elements = ChemicalFun::DBElements();
         for (auto& e : elements_map)
             setDBElement(e.second);
         return all_elements;
-- 
2.43.0


From 04a8d85398abc453e31f3c781c5c12fecdb02096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:16 +0000
Subject: [PATCH 27/32] fix: the constant volume pressure correction of a
 reaction corrects its ln K as well as its log K

---
 ThermoFun/ThermoEngine.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ThermoFun/ThermoEngine.cpp b/ThermoFun/ThermoEngine.cpp
index 6ae12be..164f6ea 100644
--- a/ThermoFun/ThermoEngine.cpp
+++ b/ThermoFun/ThermoEngine.cpp
@@ -817,7 +817,8 @@ struct ThermoEngine::Impl
                 tpr.reaction_gibbs_energy += VP;
                 tpr.reaction_enthalpy += VP;
                 auto Vref = pref.workReaction.thermoReferenceProperties().reaction_volume;
-                tpr.log_equilibrium_constant -= Vref * (P_ - Pref) / (R_CONSTANT * T) / lg_to_ln;
+                tpr.log_equilibrium_constant -= Vref * (P_ - Pref) / (R_CONSTANT * Reaktoro_::Temperature(T)) / lg_to_ln;
+                tpr.ln_equilibrium_constant = tpr.log_equilibrium_constant * lg_to_ln;
                 tpr.reaction_entropy = (tpr.reaction_enthalpy - tpr.reaction_gibbs_energy) / T;
                 tpr.reaction_internal_energy = tpr.reaction_enthalpy - P_ * tpr.reaction_volume;
                 tpr.reaction_helmholtz_energy = tpr.reaction_internal_energy - T * tpr.reaction_entropy;
-- 
2.43.0


From 2cee636e7f3ee4a3d4d4840be9190fb30a212548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:16 +0000
Subject: [PATCH 28/32] fix: the temperature derivative of ln K calculated from
 the reactants includes that of RT

---
 ThermoFun/ThermoEngine.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ThermoFun/ThermoEngine.cpp b/ThermoFun/ThermoEngine.cpp
index 164f6ea..69522b8 100644
--- a/ThermoFun/ThermoEngine.cpp
+++ b/ThermoFun/ThermoEngine.cpp
@@ -889,7 +889,7 @@ struct ThermoEngine::Impl
             tpr.reaction_enthalpy           += tps.enthalpy*coeff;
             tpr.reaction_entropy            += tps.entropy*coeff;
             tpr.reaction_volume             += tps.volume*coeff;
-            tpr.ln_equilibrium_constant     = tpr.reaction_gibbs_energy / -(R_CONSTANT*(T));
+            tpr.ln_equilibrium_constant     = tpr.reaction_gibbs_energy / (-R_CONSTANT*Reaktoro_::Temperature(T));
             tpr.log_equilibrium_constant    = tpr.ln_equilibrium_constant * ln_to_lg;
             tpr.reaction_heat_capacity_cv   += tps.heat_capacity_cv*coeff;
             tpr.reaction_internal_energy    += tps.internal_energy*coeff;
-- 
2.43.0


From 504357bc21b168603224b6f6dfa3649a170aa005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:16 +0000
Subject: [PATCH 29/32] fix: the density models of reactions set log K as well
 as ln K

---
 ThermoFun/Reactions/DolejsManning2010.cpp | 1 +
 ThermoFun/Reactions/FrantzMarshall.cpp    | 1 +
 2 files changed, 2 insertions(+)

diff --git a/ThermoFun/Reactions/DolejsManning2010.cpp b/ThermoFun/Reactions/DolejsManning2010.cpp
index 08afd79..c9ad3df 100644
--- a/ThermoFun/Reactions/DolejsManning2010.cpp
+++ b/ThermoFun/Reactions/DolejsManning2010.cpp
@@ -43,6 +43,7 @@ auto thermoPropertiesDolejsManning2010(Reaktoro_::Temperature TK, Reaktoro_::Pre
            // Error( GetName(),"DM denisty model: dGr and lnK not consistent!");
 
     tpr.ln_equilibrium_constant    = logK*lg_to_ln;
+    tpr.log_equilibrium_constant   = logK;
     tpr.reaction_enthalpy          = dHr;
     tpr.reaction_entropy           = dSr;
     tpr.reaction_gibbs_energy      = dGr;
diff --git a/ThermoFun/Reactions/FrantzMarshall.cpp b/ThermoFun/Reactions/FrantzMarshall.cpp
index 3656ab6..db20aa7 100644
--- a/ThermoFun/Reactions/FrantzMarshall.cpp
+++ b/ThermoFun/Reactions/FrantzMarshall.cpp
@@ -51,6 +51,7 @@ auto thermoPropertiesFrantzMarshall(Reaktoro_::Temperature TK, Reaktoro_::Pressu
     auto dAr  = dUr - TK*dSr;
 
     tpr.ln_equilibrium_constant    = logK*lg_to_ln;
+    tpr.log_equilibrium_constant   = logK;
     tpr.reaction_enthalpy          = dHr;
     tpr.reaction_entropy           = dSr;
     tpr.reaction_gibbs_energy      = dGr;
-- 
2.43.0


From 5d3fe553df9dd2b59c865549ec8493262ef292d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:28 +0000
Subject: [PATCH 30/32] fix: failures inside the gas models are raised as
 std::exception, like all others

---
 ThermoFun/Substances/Gases/verror.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ThermoFun/Substances/Gases/verror.h b/ThermoFun/Substances/Gases/verror.h
index 8d53b4c..021cebf 100644
--- a/ThermoFun/Substances/Gases/verror.h
+++ b/ThermoFun/Substances/Gases/verror.h
@@ -25,6 +25,7 @@
 #ifndef _verror_h_
 #define _verror_h_
 
+#include <exception>
 #include <string>
 
 static const size_t npos = std::string::npos;
@@ -34,7 +35,7 @@ static const size_t npos = std::string::npos;
 void strip(std::string& str);
 
 
-struct TError
+struct TError: public std::exception
 {
     std::string mess;
     std::string title;
@@ -49,6 +50,11 @@ struct TError
     virtual ~TError()
     {}
 
+    const char* what() const noexcept override
+    {
+        return mess.c_str();
+    }
+
 };
 
 
-- 
2.43.0


From 40c9979ca808f05e8f960eb5e4a75a70a5cdca43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:34 +0000
Subject: [PATCH 31/32] fix: numbers in exported files no longer follow the
 locale of the host program

---
 ThermoFun/Batch/OutputBatch.cpp  | 3 +++
 ThermoFun/Common/OutputToCSV.cpp | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/ThermoFun/Batch/OutputBatch.cpp b/ThermoFun/Batch/OutputBatch.cpp
index d6571ee..647b444 100644
--- a/ThermoFun/Batch/OutputBatch.cpp
+++ b/ThermoFun/Batch/OutputBatch.cpp
@@ -3,6 +3,7 @@
 #include <fstream>
 #include <sstream>
 #include <iomanip>
+#include <locale>
 #include <algorithm>
 #include "../GlobalVariables.h"
 #include "../Common/Exception.h"
@@ -51,6 +52,7 @@ struct Output::Impl
     auto writeFile(const std::string& filename, Content content) -> void
     {
         fProperties = std::ofstream();
+        fProperties.imbue(std::locale::classic()); // numbers do not follow the locale of the host program
         fProperties.open( filename, std::ios::trunc );
         funErrorIf(!fProperties.is_open(), "File writing error", "Output file " + filename + " could not be opened!", __LINE__, __FILE__);
         try
@@ -250,6 +252,7 @@ auto Output::CSVHeaderPropertyGrid() -> std::string
     for (auto col : columns)
     {
         std::ostringstream out;
+        out.imbue(std::locale::classic());
         out.precision(digits.at(ColData));
         if (pimpl->api.outputSettings().isFixed) out << std::fixed;
         if (pimpl->api.outputSettings().isScientific) out << std::scientific;
diff --git a/ThermoFun/Common/OutputToCSV.cpp b/ThermoFun/Common/OutputToCSV.cpp
index aa7736e..0add43b 100644
--- a/ThermoFun/Common/OutputToCSV.cpp
+++ b/ThermoFun/Common/OutputToCSV.cpp
@@ -1,5 +1,6 @@
 #include "OutputToCSV.h"
 #include "Exception.h"
+#include <locale>
 #include "ThermoProperties.h"
 
 namespace ThermoFun {
@@ -9,6 +10,7 @@ namespace {
 auto openFile(std::ofstream& file, const std::string& fullPath) -> void
 {
     file.clear();
+    file.imbue(std::locale::classic()); // numbers do not follow the locale of the host program
     file.open( fullPath , std::ios::trunc );
     funErrorIf(file.fail(), "File writing error", "Output file " + fullPath + " could not be opened!", __LINE__, __FILE__);
 }
-- 
2.43.0


From 6e09896b8f08939659e8e5555c94241a9bd9e334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:34 +0000
Subject: [PATCH 32/32] fix: coefficients of reaction equations are read the
 same under every locale

---
 ThermoFun/Reaction.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/ThermoFun/Reaction.cpp b/ThermoFun/Reaction.cpp
index 86a9395..457cbf9 100644
--- a/ThermoFun/Reaction.cpp
+++ b/ThermoFun/Reaction.cpp
@@ -5,6 +5,7 @@
 #include <string>
 #include <vector>
 #include <regex>
+#include <clocale>
 #include <algorithm>
 
 #include "ThermoProperties.h"
@@ -108,8 +109,16 @@ struct Reaction::Impl
       if( data[0] == '-' && ( isalpha( data[1] ) || data[1] == '(')  )
       {  coef = -1.; return data.substr(1); }
 
+      // stod expects the decimal point of the locale the host program has set
+      std::string number = data, point = std::localeconv()->decimal_point;
+      const auto dot = number.find('.');
+      if( dot != std::string::npos )
+       number.replace(dot, 1, point);
+
       std::string::size_type sz;
-      coef = stod(data,&sz);
+      coef = stod(number,&sz);
+      if( dot != std::string::npos && sz > dot )
+       sz -= point.size() - 1;
       return data.substr(sz);
     }
 
-- 
2.43.0

