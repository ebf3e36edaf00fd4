From 686ef3682221648c4a3ea351a077ba255c131ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:20 +0000
Subject: [PATCH 01/35] fix: accept omitted trailing optional arguments

When the number of arguments has been counted in advance, is_complete()
required that next_argument() had passed every counter, including those
that are zero, so two or more omitted optional arguments at the end were
reported as too few arguments.
---
 single_src/Argos/Argos.cpp    | 10 ++++++++--
 src/Argos/ArgumentCounter.cpp | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index 071cdaa..b194044 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -476,9 +476,15 @@ namespace argos
     ArgumentCounter::ArgumentCounter(const CommandData& command,
                                      size_t argument_count,
                                      size_t initial_count)
-        : m_counters(make_argument_counters(command, argument_count)),
-          m_first_optional(m_counters.size())
+        : m_counters(make_argument_counters(command, argument_count))
     {
+        // Arguments that won't receive any values aren't needed for
+        // completeness.
+        for (size_t i = 0; i < m_counters.size(); ++i)
+        {
+            if (m_counters[i].first != 0)
+                m_first_optional = i + 1;
+        }
         for (size_t i = 0; i < initial_count; ++i)
         {
             if (next_argument() == nullptr)
diff --git a/src/Argos/ArgumentCounter.cpp b/src/Argos/ArgumentCounter.cpp
index de1616c..1defcc6 100644
--- a/src/Argos/ArgumentCounter.cpp
+++ b/src/Argos/ArgumentCounter.cpp
@@ -91,9 +91,15 @@ namespace argos
     ArgumentCounter::ArgumentCounter(const CommandData& command,
                                      size_t argument_count,
                                      size_t initial_count)
-        : m_counters(make_argument_counters(command, argument_count)),
-          m_first_optional(m_counters.size())
+        : m_counters(make_argument_counters(command, argument_count))
     {
+        // Arguments that won't receive any values aren't needed for
+        // completeness.
+        for (size_t i = 0; i < m_counters.size(); ++i)
+        {
+            if (m_counters[i].first != 0)
+                m_first_optional = i + 1;
+        }
         for (size_t i = 0; i < initial_count; ++i)
         {
             if (next_argument() == nullptr)
-- 
2.43.0


From f5aa9ef4637c815fb979cbf2001355a06aa2304e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:41 +0000
Subject: [PATCH 02/35] fix: make the case-insensitive ordering of flags
 consistent

compare_ci() was neither antisymmetric nor consistent with are_equal_ci()
for letters against other characters, so the sorted option index could
miss flags or fail to detect duplicates.
---
 single_src/Argos/Argos.cpp    | 9 ++-------
 src/Argos/StringUtilities.cpp | 9 ++-------
 2 files changed, 4 insertions(+), 14 deletions(-)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index b194044..d6d233d 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -5660,13 +5660,8 @@ namespace argos
 
     int compare_ci(int c1, int c2)
     {
-        if (c1 == c2)
-            return 0;
-        const auto ic1 = int(uint8_t(c1) & 0xDFu);
-        if (ic1 < 'A' || 'Z' < ic1)
-            return c1 - c2;
-        const auto ic2 = int(uint8_t(c2) & 0xDFu);
-        return ic1 - ic2;
+        return int(uint8_t(to_lower(char(c1))))
+               - int(uint8_t(to_lower(char(c2))));
     }
 
     bool is_less_ci(std::string_view str1, std::string_view str2)
diff --git a/src/Argos/StringUtilities.cpp b/src/Argos/StringUtilities.cpp
index d992c99..4221ddf 100644
--- a/src/Argos/StringUtilities.cpp
+++ b/src/Argos/StringUtilities.cpp
@@ -63,13 +63,8 @@ namespace argos
 
     int compare_ci(int c1, int c2)
     {
-        if (c1 == c2)
-            return 0;
-        const auto ic1 = int(uint8_t(c1) & 0xDFu);
-        if (ic1 < 'A' || 'Z' < ic1)
-            return c1 - c2;
-        const auto ic2 = int(uint8_t(c2) & 0xDFu);
-        return ic1 - ic2;
+        return int(uint8_t(to_lower(char(c1))))
+               - int(uint8_t(to_lower(char(c2))));
     }
 
     bool is_less_ci(std::string_view str1, std::string_view str2)
-- 
2.43.0


From f786ab836a7a5bd10eb628b1ca467dbf4cf99755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:41 +0000
Subject: [PATCH 03/35] fix: keep the version when a const ArgumentParser is
 used

make_copy() dropped the version, so the const parse() and make_iterator()
had no version option.
---
 single_src/Argos/Argos.cpp   | 1 +
 src/Argos/ArgumentParser.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index d6d233d..e890ff2 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -1790,6 +1790,7 @@ namespace argos
             result->parser_settings = data.parser_settings;
             result->help_settings = data.help_settings;
             result->command = data.command;
+            result->version = data.version;
             return result;
         }
 
diff --git a/src/Argos/ArgumentParser.cpp b/src/Argos/ArgumentParser.cpp
index 61ab47d..e5ca061 100644
--- a/src/Argos/ArgumentParser.cpp
+++ b/src/Argos/ArgumentParser.cpp
@@ -26,6 +26,7 @@ namespace argos
             result->parser_settings = data.parser_settings;
             result->help_settings = data.help_settings;
             result->command = data.command;
+            result->version = data.version;
             return result;
         }
 
-- 
2.43.0


From 09aa0d597ca1f404f5a5f06d866d9d166cd5809d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:57 +0000
Subject: [PATCH 04/35] fix: copy and move the visibility of commands

---
 single_src/Argos/Argos.cpp | 4 ++++
 src/Argos/CommandData.cpp  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index e890ff2..7ded03e 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -3030,6 +3030,7 @@ namespace argos
           name(rhs.name),
           full_name(rhs.full_name),
           texts(rhs.texts),
+          visibility(rhs.visibility),
           require_subcommand(rhs.require_subcommand),
           multi_command(rhs.multi_command),
           section(rhs.section),
@@ -3055,6 +3056,7 @@ namespace argos
           name(std::move(rhs.name)),
           full_name(std::move(rhs.full_name)),
           texts(std::move(rhs.texts)),
+          visibility(rhs.visibility),
           require_subcommand(rhs.require_subcommand),
           multi_command(rhs.multi_command),
           section(std::move(rhs.section)),
@@ -3073,6 +3075,7 @@ namespace argos
         name = rhs.name;
         full_name = rhs.full_name;
         texts = rhs.texts;
+        visibility = rhs.visibility;
         require_subcommand = rhs.require_subcommand;
         multi_command = rhs.multi_command;
         section = rhs.section;
@@ -3106,6 +3109,7 @@ namespace argos
         name = std::move(rhs.name);
         full_name = std::move(rhs.full_name);
         texts = std::move(rhs.texts);
+        visibility = rhs.visibility;
         arguments = std::move(rhs.arguments);
         options = std::move(rhs.options);
         commands = std::move(rhs.commands);
diff --git a/src/Argos/CommandData.cpp b/src/Argos/CommandData.cpp
index 16523d0..3d150d4 100644
--- a/src/Argos/CommandData.cpp
+++ b/src/Argos/CommandData.cpp
@@ -24,6 +24,7 @@ namespace argos
           name(rhs.name),
           full_name(rhs.full_name),
           texts(rhs.texts),
+          visibility(rhs.visibility),
           require_subcommand(rhs.require_subcommand),
           multi_command(rhs.multi_command),
           section(rhs.section),
@@ -49,6 +50,7 @@ namespace argos
           name(std::move(rhs.name)),
           full_name(std::move(rhs.full_name)),
           texts(std::move(rhs.texts)),
+          visibility(rhs.visibility),
           require_subcommand(rhs.require_subcommand),
           multi_command(rhs.multi_command),
           section(std::move(rhs.section)),
@@ -67,6 +69,7 @@ namespace argos
         name = rhs.name;
         full_name = rhs.full_name;
         texts = rhs.texts;
+        visibility = rhs.visibility;
         require_subcommand = rhs.require_subcommand;
         multi_command = rhs.multi_command;
         section = rhs.section;
@@ -100,6 +103,7 @@ namespace argos
         name = std::move(rhs.name);
         full_name = std::move(rhs.full_name);
         texts = std::move(rhs.texts);
+        visibility = rhs.visibility;
         arguments = std::move(rhs.arguments);
         options = std::move(rhs.options);
         commands = std::move(rhs.commands);
-- 
2.43.0


From c164b97efb82ad7403b21f996a6f40d8f637c7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:58 +0000
Subject: [PATCH 05/35] fix: let aliases find every flag of an already aliased
 option

When one of an option's flags had been used as an alias earlier, its
other flags were not registered, and a later alias for one of those got
a value of its own.
---
 single_src/Argos/Argos.cpp | 13 ++++++++-----
 src/Argos/CommandData.cpp  | 13 ++++++++-----
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index 7ded03e..43ca639 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -3369,15 +3369,18 @@ namespace argos
 
                 ValueId get_value_id(const std::vector<std::string>& names)
                 {
+                    std::optional<ValueId> value_id;
                     for (const auto& name : names)
                     {
-                        if (const auto value_id = find_value_id(name))
-                            return *value_id;
+                        value_id = find_value_id(name);
+                        if (value_id)
+                            break;
                     }
-                    id++;
+                    if (!value_id)
+                        value_id = ValueId(++id);
                     for (const auto& name : names)
-                        explicit_ids.emplace(name, ValueId(id));
-                    return ValueId(id);
+                        explicit_ids.emplace(name, *value_id);
+                    return *value_id;
                 }
             };
 
diff --git a/src/Argos/CommandData.cpp b/src/Argos/CommandData.cpp
index 3d150d4..53dd1ee 100644
--- a/src/Argos/CommandData.cpp
+++ b/src/Argos/CommandData.cpp
@@ -363,15 +363,18 @@ namespace argos
 
                 ValueId get_value_id(const std::vector<std::string>& names)
                 {
+                    std::optional<ValueId> value_id;
                     for (const auto& name : names)
                     {
-                        if (const auto value_id = find_value_id(name))
-                            return *value_id;
+                        value_id = find_value_id(name);
+                        if (value_id)
+                            break;
                     }
-                    id++;
+                    if (!value_id)
+                        value_id = ValueId(++id);
                     for (const auto& name : names)
-                        explicit_ids.emplace(name, ValueId(id));
-                    return ValueId(id);
+                        explicit_ids.emplace(name, *value_id);
+                    return *value_id;
                 }
             };
 
-- 
2.43.0


From 5bf31c2a1de552097b1348af727f64cdaddf6d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:18 +0000
Subject: [PATCH 06/35] fix: don't deliver spurious empty arguments after
 LAST_OPTION

OptionIterator::next_value() left the iterator in the middle of the
argument it had just returned, so the next call returned the empty rest
of it as an argument in SLASH and DASH style.
---
 single_src/Argos/Argos.cpp   | 2 +-
 src/Argos/OptionIterator.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index 43ca639..4567836 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -4536,7 +4536,7 @@ namespace argos
             return {};
         }
 
-        m_pos = m_args[0].size();
+        m_pos = std::string_view::npos;
         return std::string(m_args[0]);
     }
 
diff --git a/src/Argos/OptionIterator.cpp b/src/Argos/OptionIterator.cpp
index 27b0d71..2866430 100644
--- a/src/Argos/OptionIterator.cpp
+++ b/src/Argos/OptionIterator.cpp
@@ -78,7 +78,7 @@ namespace argos
             return {};
         }
 
-        m_pos = m_args[0].size();
+        m_pos = std::string_view::npos;
         return std::string(m_args[0]);
     }
 
-- 
2.43.0


From 27cacbd25b71fc9afb647c52f23ff6100a75bb5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:19 +0000
Subject: [PATCH 07/35] fix: don't count plain arguments as abbreviated options

count_arguments() looked up arguments such as "-" and "" among the
options before checking that they are options, so with abbreviations
allowed they weren't counted.
---
 single_src/Argos/Argos.cpp         | 12 ++++++++----
 src/Argos/ArgumentIteratorImpl.cpp | 12 ++++++++----
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index 4567836..bf0af97 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -1592,10 +1592,14 @@ namespace argos
         auto [min_count, _] = ArgumentCounter::get_min_max_count(*m_command);
         for (auto arg = it.next(); arg; arg = it.next())
         {
-            const OptionData* option = m_command->find_option(
-                *arg,
-                m_data->parser_settings.allow_abbreviated_options,
-                m_data->parser_settings.case_insensitive);
+            const OptionData* option = nullptr;
+            if (is_option(*arg, m_data->parser_settings.option_style))
+            {
+                option = m_command->find_option(
+                    *arg,
+                    m_data->parser_settings.allow_abbreviated_options,
+                    m_data->parser_settings.case_insensitive);
+            }
 
             if (option)
             {
diff --git a/src/Argos/ArgumentIteratorImpl.cpp b/src/Argos/ArgumentIteratorImpl.cpp
index 1034c88..b569a76 100644
--- a/src/Argos/ArgumentIteratorImpl.cpp
+++ b/src/Argos/ArgumentIteratorImpl.cpp
@@ -350,10 +350,14 @@ namespace argos
         auto [min_count, _] = ArgumentCounter::get_min_max_count(*m_command);
         for (auto arg = it.next(); arg; arg = it.next())
         {
-            const OptionData* option = m_command->find_option(
-                *arg,
-                m_data->parser_settings.allow_abbreviated_options,
-                m_data->parser_settings.case_insensitive);
+            const OptionData* option = nullptr;
+            if (is_option(*arg, m_data->parser_settings.option_style))
+            {
+                option = m_command->find_option(
+                    *arg,
+                    m_data->parser_settings.allow_abbreviated_options,
+                    m_data->parser_settings.case_insensitive);
+            }
 
             if (option)
             {
-- 
2.43.0


From a09762a8c1cfbb409b3cfd4250a5c8e941611bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:19 +0000
Subject: [PATCH 08/35] fix: don't count arguments that follow an EXIT option

---
 single_src/Argos/Argos.cpp         | 1 +
 src/Argos/ArgumentIteratorImpl.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index bf0af97..d137c26 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -1613,6 +1613,7 @@ namespace argos
                 case OptionType::HELP:
                 case OptionType::LAST_ARGUMENT:
                 case OptionType::STOP:
+                case OptionType::EXIT:
                     return result;
                 case OptionType::LAST_OPTION:
                     arguments_only = true;
diff --git a/src/Argos/ArgumentIteratorImpl.cpp b/src/Argos/ArgumentIteratorImpl.cpp
index b569a76..93de362 100644
--- a/src/Argos/ArgumentIteratorImpl.cpp
+++ b/src/Argos/ArgumentIteratorImpl.cpp
@@ -371,6 +371,7 @@ namespace argos
                 case OptionType::HELP:
                 case OptionType::LAST_ARGUMENT:
                 case OptionType::STOP:
+                case OptionType::EXIT:
                     return result;
                 case OptionType::LAST_OPTION:
                     arguments_only = true;
-- 
2.43.0


From baa412e25f4050cd6d274331f884add56f27451a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:46 +0000
Subject: [PATCH 09/35] fix: let NONE and CLEAR options consume their argument

An option with an argument and operation NONE or CLEAR was counted as
consuming its argument, but the argument was processed (or the attached
value silently dropped) as if it didn't belong to the option.
---
 single_src/Argos/Argos.cpp         | 16 ++++++++++++++--
 src/Argos/ArgumentIteratorImpl.cpp | 14 ++++++++++++--
 src/Argos/ArgumentIteratorImpl.hpp |  3 +++
 3 files changed, 29 insertions(+), 4 deletions(-)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index d137c26..cfe7fc6 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -1076,6 +1076,8 @@ namespace argos
         std::vector<std::shared_ptr<ParsedArgumentsImpl>> m_parsed_args;
         OptionIteratorWrapper m_iterator;
         ArgumentCounter m_argument_counter;
+        // Values that are used in results, but aren't in m_parsed_args.
+        std::list<std::string> m_values;
 
         enum class State
         {
@@ -1426,9 +1428,19 @@ namespace argos
             }
             break;
         case OptionOperation::CLEAR:
-            parsed_args->clear_value(opt.value_id);
-            break;
         case OptionOperation::NONE:
+            if (!opt.argument.empty())
+            {
+                auto value = m_iterator.next_value();
+                if (!value)
+                {
+                    error(flag + ": no value given.");
+                    return {OptionResult::ERROR, {}};
+                }
+                arg = m_values.emplace_back(std::move(*value));
+            }
+            if (opt.operation == OptionOperation::CLEAR)
+                parsed_args->clear_value(opt.value_id);
             break;
         }
 
diff --git a/src/Argos/ArgumentIteratorImpl.cpp b/src/Argos/ArgumentIteratorImpl.cpp
index 93de362..45bad81 100644
--- a/src/Argos/ArgumentIteratorImpl.cpp
+++ b/src/Argos/ArgumentIteratorImpl.cpp
@@ -184,9 +184,19 @@ namespace argos
             }
             break;
         case OptionOperation::CLEAR:
-            parsed_args->clear_value(opt.value_id);
-            break;
         case OptionOperation::NONE:
+            if (!opt.argument.empty())
+            {
+                auto value = m_iterator.next_value();
+                if (!value)
+                {
+                    error(flag + ": no value given.");
+                    return {OptionResult::ERROR, {}};
+                }
+                arg = m_values.emplace_back(std::move(*value));
+            }
+            if (opt.operation == OptionOperation::CLEAR)
+                parsed_args->clear_value(opt.value_id);
             break;
         }
 
diff --git a/src/Argos/ArgumentIteratorImpl.hpp b/src/Argos/ArgumentIteratorImpl.hpp
index e81b04c..12478cb 100644
--- a/src/Argos/ArgumentIteratorImpl.hpp
+++ b/src/Argos/ArgumentIteratorImpl.hpp
@@ -6,6 +6,7 @@
 // License text is included with the source distribution.
 //****************************************************************************
 #pragma once
+#include <list>
 #include <string>
 #include <variant>
 #include "ArgumentCounter.hpp"
@@ -100,6 +101,8 @@ namespace argos
         std::vector<std::shared_ptr<ParsedArgumentsImpl>> m_parsed_args;
         OptionIteratorWrapper m_iterator;
         ArgumentCounter m_argument_counter;
+        // Values that are used in results, but aren't in m_parsed_args.
+        std::list<std::string> m_values;
 
         enum class State
         {
-- 
2.43.0


From 41d99d3fd5366f63b020c78ff33a85013bb9d22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:46 +0000
Subject: [PATCH 10/35] fix: don't pass dangling values to callbacks

A callback that replaces or clears the value of its own option or
argument left the parser-wide callback and the iterator result with a
view of the destroyed string.
---
 single_src/Argos/Argos.cpp         | 22 +++++++++++++---------
 src/Argos/ArgumentIteratorImpl.cpp | 19 +++++++++++--------
 src/Argos/ArgumentIteratorImpl.hpp |  3 ++-
 3 files changed, 26 insertions(+), 18 deletions(-)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index cfe7fc6..1535ee0 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -1076,7 +1076,8 @@ namespace argos
         std::vector<std::shared_ptr<ParsedArgumentsImpl>> m_parsed_args;
         OptionIteratorWrapper m_iterator;
         ArgumentCounter m_argument_counter;
-        // Values that are used in results, but aren't in m_parsed_args.
+        // The values that callbacks and results refer to. Callbacks can change
+        // the ones in m_parsed_args.
         std::list<std::string> m_values;
 
         enum class State
@@ -1399,10 +1400,11 @@ namespace argos
                 parsed_args->assign_value(opt.value_id, opt.constant,
                                           opt.argument_id);
             }
-            else if (const auto value = m_iterator.next_value())
+            else if (auto value = m_iterator.next_value())
             {
-                arg = parsed_args->assign_value(opt.value_id, *value,
-                                                opt.argument_id);
+                parsed_args->assign_value(opt.value_id, *value,
+                                          opt.argument_id);
+                arg = m_values.emplace_back(std::move(*value));
             }
             else
             {
@@ -1416,10 +1418,11 @@ namespace argos
                 parsed_args->append_value(opt.value_id, opt.constant,
                                           opt.argument_id);
             }
-            else if (const auto value = m_iterator.next_value())
+            else if (auto value = m_iterator.next_value())
             {
-                arg = parsed_args->append_value(opt.value_id, *value,
-                                                opt.argument_id);
+                parsed_args->append_value(opt.value_id, *value,
+                                          opt.argument_id);
+                arg = m_values.emplace_back(std::move(*value));
             }
             else
             {
@@ -1544,8 +1547,9 @@ namespace argos
         }
         if (auto argument = m_argument_counter.next_argument())
         {
-            auto s = parsed_args->append_value(argument->value_id, value,
-                                               argument->argument_id);
+            parsed_args->append_value(argument->value_id, value,
+                                      argument->argument_id);
+            const std::string_view s = m_values.emplace_back(value);
             if (argument->callback)
             {
                 CallbackArguments args(ArgumentView(argument), s, parsed_args);
diff --git a/src/Argos/ArgumentIteratorImpl.cpp b/src/Argos/ArgumentIteratorImpl.cpp
index 45bad81..36f8467 100644
--- a/src/Argos/ArgumentIteratorImpl.cpp
+++ b/src/Argos/ArgumentIteratorImpl.cpp
@@ -155,10 +155,11 @@ namespace argos
                 parsed_args->assign_value(opt.value_id, opt.constant,
                                           opt.argument_id);
             }
-            else if (const auto value = m_iterator.next_value())
+            else if (auto value = m_iterator.next_value())
             {
-                arg = parsed_args->assign_value(opt.value_id, *value,
-                                                opt.argument_id);
+                parsed_args->assign_value(opt.value_id, *value,
+                                          opt.argument_id);
+                arg = m_values.emplace_back(std::move(*value));
             }
             else
             {
@@ -172,10 +173,11 @@ namespace argos
                 parsed_args->append_value(opt.value_id, opt.constant,
                                           opt.argument_id);
             }
-            else if (const auto value = m_iterator.next_value())
+            else if (auto value = m_iterator.next_value())
             {
-                arg = parsed_args->append_value(opt.value_id, *value,
-                                                opt.argument_id);
+                parsed_args->append_value(opt.value_id, *value,
+                                          opt.argument_id);
+                arg = m_values.emplace_back(std::move(*value));
             }
             else
             {
@@ -300,8 +302,9 @@ namespace argos
         }
         if (auto argument = m_argument_counter.next_argument())
         {
-            auto s = parsed_args->append_value(argument->value_id, value,
-                                               argument->argument_id);
+            parsed_args->append_value(argument->value_id, value,
+                                      argument->argument_id);
+            const std::string_view s = m_values.emplace_back(value);
             if (argument->callback)
             {
                 CallbackArguments args(ArgumentView(argument), s, parsed_args);
diff --git a/src/Argos/ArgumentIteratorImpl.hpp b/src/Argos/ArgumentIteratorImpl.hpp
index 12478cb..8d71547 100644
--- a/src/Argos/ArgumentIteratorImpl.hpp
+++ b/src/Argos/ArgumentIteratorImpl.hpp
@@ -101,7 +101,8 @@ namespace argos
         std::vector<std::shared_ptr<ParsedArgumentsImpl>> m_parsed_args;
         OptionIteratorWrapper m_iterator;
         ArgumentCounter m_argument_counter;
-        // Values that are used in results, but aren't in m_parsed_args.
+        // The values that callbacks and results refer to. Callbacks can change
+        // the ones in m_parsed_args.
         std::list<std::string> m_values;
 
         enum class State
-- 
2.43.0


From da9393ca9cd38a2df07ce4ce0a59eff236358a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:21 +0000
Subject: [PATCH 11/35] fix: count inserted arguments correctly after
 LAST_OPTION

Arguments inserted by callbacks were counted as if options were still
processed when they came from the LAST_OPTION option or from later
arguments.
---
 single_src/Argos/Argos.cpp         | 12 +++++++++---
 src/Argos/ArgumentIteratorImpl.cpp | 12 +++++++++---
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index 1535ee0..b56d5fb 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -1447,6 +1447,9 @@ namespace argos
             break;
         }
 
+        if (opt.type == OptionType::LAST_OPTION)
+            m_state = State::ARGUMENTS_ONLY;
+
         if (opt.callback)
         {
             CallbackArguments args(OptionView(&opt), arg, parsed_args);
@@ -1479,7 +1482,6 @@ namespace argos
             m_state = State::DONE;
             return {OptionResult::LAST_ARGUMENT, arg};
         case OptionType::LAST_OPTION:
-            m_state = State::ARGUMENTS_ONLY;
             return {OptionResult::NORMAL, arg};
         }
         return {};
@@ -1580,6 +1582,7 @@ namespace argos
     {
         m_parsed_args.push_back(parsed_arguments()->add_subcommand(command));
         m_command = command;
+        m_state = State::ARGUMENTS_AND_OPTIONS;
         if (!ArgumentCounter::requires_argument_count(*m_command))
         {
             m_argument_counter = ArgumentCounter(*m_command);
@@ -1589,7 +1592,6 @@ namespace argos
             m_argument_counter = ArgumentCounter(*m_command,
                                                  count_arguments());
         }
-        m_state = State::ARGUMENTS_AND_OPTIONS;
         return {IteratorResultCode::COMMAND, command, m_iterator.current()};
     }
 
@@ -1606,8 +1608,12 @@ namespace argos
         size_t result = 0;
         auto it = m_iterator;
         auto [min_count, _] = ArgumentCounter::get_min_max_count(*m_command);
-        for (auto arg = it.next(); arg; arg = it.next())
+        while (m_state == State::ARGUMENTS_AND_OPTIONS)
         {
+            const auto arg = it.next();
+            if (!arg)
+                break;
+
             const OptionData* option = nullptr;
             if (is_option(*arg, m_data->parser_settings.option_style))
             {
diff --git a/src/Argos/ArgumentIteratorImpl.cpp b/src/Argos/ArgumentIteratorImpl.cpp
index 36f8467..028ddfd 100644
--- a/src/Argos/ArgumentIteratorImpl.cpp
+++ b/src/Argos/ArgumentIteratorImpl.cpp
@@ -202,6 +202,9 @@ namespace argos
             break;
         }
 
+        if (opt.type == OptionType::LAST_OPTION)
+            m_state = State::ARGUMENTS_ONLY;
+
         if (opt.callback)
         {
             CallbackArguments args(OptionView(&opt), arg, parsed_args);
@@ -234,7 +237,6 @@ namespace argos
             m_state = State::DONE;
             return {OptionResult::LAST_ARGUMENT, arg};
         case OptionType::LAST_OPTION:
-            m_state = State::ARGUMENTS_ONLY;
             return {OptionResult::NORMAL, arg};
         }
         return {};
@@ -335,6 +337,7 @@ namespace argos
     {
         m_parsed_args.push_back(parsed_arguments()->add_subcommand(command));
         m_command = command;
+        m_state = State::ARGUMENTS_AND_OPTIONS;
         if (!ArgumentCounter::requires_argument_count(*m_command))
         {
             m_argument_counter = ArgumentCounter(*m_command);
@@ -344,7 +347,6 @@ namespace argos
             m_argument_counter = ArgumentCounter(*m_command,
                                                  count_arguments());
         }
-        m_state = State::ARGUMENTS_AND_OPTIONS;
         return {IteratorResultCode::COMMAND, command, m_iterator.current()};
     }
 
@@ -361,8 +363,12 @@ namespace argos
         size_t result = 0;
         auto it = m_iterator;
         auto [min_count, _] = ArgumentCounter::get_min_max_count(*m_command);
-        for (auto arg = it.next(); arg; arg = it.next())
+        while (m_state == State::ARGUMENTS_AND_OPTIONS)
         {
+            const auto arg = it.next();
+            if (!arg)
+                break;
+
             const OptionData* option = nullptr;
             if (is_option(*arg, m_data->parser_settings.option_style))
             {
-- 
2.43.0


From f5a52407d47571054e19d14cdc0e4d1a8534986e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:56 +0000
Subject: [PATCH 12/35] fix: keep the dash of flags concatenated after a
 last-option flag

The flags that follow a LAST_OPTION or LAST_ARGUMENT flag in the same
group were delivered as an argument without the dash, unlike the same
flags given separately. Inserting arguments from such an option also
delivered an extra empty argument.
---
 single_src/Argos/Argos.cpp           | 16 ++++++++++++++--
 src/Argos/ArgumentIteratorImpl.cpp   |  5 +++++
 src/Argos/OptionIteratorWrapper.hpp  |  6 ++++++
 src/Argos/StandardOptionIterator.cpp |  1 +
 src/Argos/StandardOptionIterator.hpp |  4 ++--
 5 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index b56d5fb..36b2d5e 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -831,9 +831,9 @@ namespace argos
         [[nodiscard]] std::span<std::string> remaining_arguments();
 
         void insert(std::vector<std::string> args);
-    private:
-        void split_concatenated_flags();
 
+        void split_concatenated_flags();
+    private:
         std::vector<std::string> m_all_args;
         std::span<std::string> m_args;
         size_t m_pos = 0;
@@ -892,6 +892,12 @@ namespace argos
                 std::get<StandardOptionIterator>(iterator).insert(args);
         }
 
+        void split_concatenated_flags()
+        {
+            if (std::holds_alternative<StandardOptionIterator>(iterator))
+                std::get<StandardOptionIterator>(iterator).split_concatenated_flags();
+        }
+
         std::variant<OptionIterator, StandardOptionIterator> iterator;
     };
 }
@@ -1448,7 +1454,10 @@ namespace argos
         }
 
         if (opt.type == OptionType::LAST_OPTION)
+        {
+            m_iterator.split_concatenated_flags();
             m_state = State::ARGUMENTS_ONLY;
+        }
 
         if (opt.callback)
         {
@@ -1638,6 +1647,7 @@ namespace argos
                 case OptionType::EXIT:
                     return result;
                 case OptionType::LAST_OPTION:
+                    it.split_concatenated_flags();
                     arguments_only = true;
                     break;
                 default:
@@ -1743,6 +1753,7 @@ namespace argos
         m_parsed_args.resize(index + 1);
         m_command = m_parsed_args.back()->command();
         m_argument_counter = {};
+        m_iterator.split_concatenated_flags();
         m_state = State::ARGUMENTS_ONLY;
     }
 
@@ -5629,6 +5640,7 @@ namespace argos
                           "-" + m_args[0].substr(m_pos));
         m_all_args[index].resize(m_pos);
         m_args = std::span(m_all_args.begin() + index, m_all_args.end());
+        m_pos = std::string::npos;
     }
 }
 
diff --git a/src/Argos/ArgumentIteratorImpl.cpp b/src/Argos/ArgumentIteratorImpl.cpp
index 028ddfd..43184fd 100644
--- a/src/Argos/ArgumentIteratorImpl.cpp
+++ b/src/Argos/ArgumentIteratorImpl.cpp
@@ -203,7 +203,10 @@ namespace argos
         }
 
         if (opt.type == OptionType::LAST_OPTION)
+        {
+            m_iterator.split_concatenated_flags();
             m_state = State::ARGUMENTS_ONLY;
+        }
 
         if (opt.callback)
         {
@@ -393,6 +396,7 @@ namespace argos
                 case OptionType::EXIT:
                     return result;
                 case OptionType::LAST_OPTION:
+                    it.split_concatenated_flags();
                     arguments_only = true;
                     break;
                 default:
@@ -498,6 +502,7 @@ namespace argos
         m_parsed_args.resize(index + 1);
         m_command = m_parsed_args.back()->command();
         m_argument_counter = {};
+        m_iterator.split_concatenated_flags();
         m_state = State::ARGUMENTS_ONLY;
     }
 
diff --git a/src/Argos/OptionIteratorWrapper.hpp b/src/Argos/OptionIteratorWrapper.hpp
index 54dcb5c..e0e0dfa 100644
--- a/src/Argos/OptionIteratorWrapper.hpp
+++ b/src/Argos/OptionIteratorWrapper.hpp
@@ -54,6 +54,12 @@ namespace argos
                 std::get<StandardOptionIterator>(iterator).insert(args);
         }
 
+        void split_concatenated_flags()
+        {
+            if (std::holds_alternative<StandardOptionIterator>(iterator))
+                std::get<StandardOptionIterator>(iterator).split_concatenated_flags();
+        }
+
         std::variant<OptionIterator, StandardOptionIterator> iterator;
     };
 }
diff --git a/src/Argos/StandardOptionIterator.cpp b/src/Argos/StandardOptionIterator.cpp
index e950414..ba6c274 100644
--- a/src/Argos/StandardOptionIterator.cpp
+++ b/src/Argos/StandardOptionIterator.cpp
@@ -126,5 +126,6 @@ namespace argos
                           "-" + m_args[0].substr(m_pos));
         m_all_args[index].resize(m_pos);
         m_args = std::span(m_all_args.begin() + index, m_all_args.end());
+        m_pos = std::string::npos;
     }
 }
diff --git a/src/Argos/StandardOptionIterator.hpp b/src/Argos/StandardOptionIterator.hpp
index 58ce499..1cbddb5 100644
--- a/src/Argos/StandardOptionIterator.hpp
+++ b/src/Argos/StandardOptionIterator.hpp
@@ -32,9 +32,9 @@ namespace argos
         [[nodiscard]] std::span<std::string> remaining_arguments();
 
         void insert(std::vector<std::string> args);
-    private:
-        void split_concatenated_flags();
 
+        void split_concatenated_flags();
+    private:
         std::vector<std::string> m_all_args;
         std::span<std::string> m_args;
         size_t m_pos = 0;
-- 
2.43.0


From 8a03912a7b7077dda40c243a6f6fd299e1e44f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:34 +0000
Subject: [PATCH 13/35] fix: report the result code at every level

A HELP, STOP or EXIT option of a sub-command left the result code of the
top-level ParsedArguments as NONE and its stop option unset, and with
multiple sub-commands the completed ones kept the result code NONE.
---
 single_src/Argos/Argos.cpp         | 26 ++++++++++++++++++--------
 src/Argos/ArgumentIteratorImpl.cpp | 20 ++++++++++++--------
 src/Argos/ArgumentIteratorImpl.hpp |  2 ++
 src/Argos/ParsedArgumentsImpl.cpp  |  4 ++++
 4 files changed, 36 insertions(+), 16 deletions(-)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index 36b2d5e..b7012da 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -1072,6 +1072,8 @@ namespace argos
 
         void update_arguments(const std::vector<std::string>& args);
 
+        void set_breaking_option(const OptionData* option);
+
         void error(const std::string& message = {});
 
         bool has_all_mandatory_options(const ParsedArgumentsImpl& parsed_args,
@@ -1480,12 +1482,10 @@ namespace argos
             write_help_text(*m_data, *m_command);
             [[fallthrough]];
         case OptionType::EXIT:
-            m_state = State::DONE;
-            parsed_args->set_breaking_option(&opt);
+            set_breaking_option(&opt);
             return {OptionResult::EXIT, arg};
         case OptionType::STOP:
-            m_state = State::DONE;
-            parsed_args->set_breaking_option(&opt);
+            set_breaking_option(&opt);
             return {OptionResult::STOP, arg};
         case OptionType::LAST_ARGUMENT:
             m_state = State::DONE;
@@ -1697,8 +1697,8 @@ namespace argos
         if (m_argument_counter.is_complete())
         {
             m_state = State::DONE;
-            for (const auto& pa : m_parsed_args)
-                pa->set_result_code(ParserResultCode::SUCCESS);
+            toplevel_parsed_arguments()
+                ->set_result_code(ParserResultCode::SUCCESS);
             return true;
         }
         else
@@ -1773,6 +1773,12 @@ namespace argos
                                              current_count);
     }
 
+    void ArgumentIteratorImpl::set_breaking_option(const OptionData* option)
+    {
+        m_state = State::DONE;
+        toplevel_parsed_arguments()->set_breaking_option(option);
+    }
+
     void ArgumentIteratorImpl::error(const std::string& message)
     {
         if (!message.empty())
@@ -1782,8 +1788,8 @@ namespace argos
             exit(m_data->parser_settings.error_exit_code);
 
         copy_remaining_arguments_to_parser_result();
-        for (const auto& parsed_args : m_parsed_args)
-            parsed_args->set_result_code(ParserResultCode::FAILURE);
+        toplevel_parsed_arguments()
+            ->set_result_code(ParserResultCode::FAILURE);
         m_state = State::ERROR;
     }
 
@@ -5421,6 +5427,8 @@ namespace argos
     void ParsedArgumentsImpl::set_result_code(ParserResultCode result_code)
     {
         m_result_code = result_code;
+        for (const auto& command : m_commands)
+            command->set_result_code(result_code);
     }
 
     const OptionData* ParsedArgumentsImpl::stop_option() const
@@ -5432,6 +5440,8 @@ namespace argos
     {
         m_result_code = ParserResultCode::STOP;
         m_stop_option = option;
+        for (const auto& command : m_commands)
+            command->set_breaking_option(option);
     }
 
     void ParsedArgumentsImpl::error(const std::string& message) const
diff --git a/src/Argos/ArgumentIteratorImpl.cpp b/src/Argos/ArgumentIteratorImpl.cpp
index 43184fd..a2b7baa 100644
--- a/src/Argos/ArgumentIteratorImpl.cpp
+++ b/src/Argos/ArgumentIteratorImpl.cpp
@@ -229,12 +229,10 @@ namespace argos
             write_help_text(*m_data, *m_command);
             [[fallthrough]];
         case OptionType::EXIT:
-            m_state = State::DONE;
-            parsed_args->set_breaking_option(&opt);
+            set_breaking_option(&opt);
             return {OptionResult::EXIT, arg};
         case OptionType::STOP:
-            m_state = State::DONE;
-            parsed_args->set_breaking_option(&opt);
+            set_breaking_option(&opt);
             return {OptionResult::STOP, arg};
         case OptionType::LAST_ARGUMENT:
             m_state = State::DONE;
@@ -446,8 +444,8 @@ namespace argos
         if (m_argument_counter.is_complete())
         {
             m_state = State::DONE;
-            for (const auto& pa : m_parsed_args)
-                pa->set_result_code(ParserResultCode::SUCCESS);
+            toplevel_parsed_arguments()
+                ->set_result_code(ParserResultCode::SUCCESS);
             return true;
         }
         else
@@ -522,6 +520,12 @@ namespace argos
                                              current_count);
     }
 
+    void ArgumentIteratorImpl::set_breaking_option(const OptionData* option)
+    {
+        m_state = State::DONE;
+        toplevel_parsed_arguments()->set_breaking_option(option);
+    }
+
     void ArgumentIteratorImpl::error(const std::string& message)
     {
         if (!message.empty())
@@ -531,8 +535,8 @@ namespace argos
             exit(m_data->parser_settings.error_exit_code);
 
         copy_remaining_arguments_to_parser_result();
-        for (const auto& parsed_args : m_parsed_args)
-            parsed_args->set_result_code(ParserResultCode::FAILURE);
+        toplevel_parsed_arguments()
+            ->set_result_code(ParserResultCode::FAILURE);
         m_state = State::ERROR;
     }
 
diff --git a/src/Argos/ArgumentIteratorImpl.hpp b/src/Argos/ArgumentIteratorImpl.hpp
index 8d71547..659240c 100644
--- a/src/Argos/ArgumentIteratorImpl.hpp
+++ b/src/Argos/ArgumentIteratorImpl.hpp
@@ -91,6 +91,8 @@ namespace argos
 
         void update_arguments(const std::vector<std::string>& args);
 
+        void set_breaking_option(const OptionData* option);
+
         void error(const std::string& message = {});
 
         bool has_all_mandatory_options(const ParsedArgumentsImpl& parsed_args,
diff --git a/src/Argos/ParsedArgumentsImpl.cpp b/src/Argos/ParsedArgumentsImpl.cpp
index 15ef0ef..9949806 100644
--- a/src/Argos/ParsedArgumentsImpl.cpp
+++ b/src/Argos/ParsedArgumentsImpl.cpp
@@ -215,6 +215,8 @@ namespace argos
     void ParsedArgumentsImpl::set_result_code(ParserResultCode result_code)
     {
         m_result_code = result_code;
+        for (const auto& command : m_commands)
+            command->set_result_code(result_code);
     }
 
     const OptionData* ParsedArgumentsImpl::stop_option() const
@@ -226,6 +228,8 @@ namespace argos
     {
         m_result_code = ParserResultCode::STOP;
         m_stop_option = option;
+        for (const auto& command : m_commands)
+            command->set_breaking_option(option);
     }
 
     void ParsedArgumentsImpl::error(const std::string& message) const
-- 
2.43.0


From 85de57e8bce5640898a7a866d0af697dea70717a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:35 +0000
Subject: [PATCH 14/35] fix: use the complete path in the full name of nested
 commands

---
 single_src/Argos/Argos.cpp | 2 +-
 src/Argos/CommandData.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index b7012da..986f907 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -3499,7 +3499,7 @@ namespace argos
         cmd.build_option_index(data.parser_settings.case_insensitive);
         for (auto& c : cmd.commands)
         {
-            c->full_name = cmd.name + ' ' + c->name;
+            c->full_name = cmd.full_name + ' ' + c->name;
             finish_initialization(*c, data, start_id, argument_id);
         }
     }
diff --git a/src/Argos/CommandData.cpp b/src/Argos/CommandData.cpp
index 53dd1ee..531fe0e 100644
--- a/src/Argos/CommandData.cpp
+++ b/src/Argos/CommandData.cpp
@@ -449,7 +449,7 @@ namespace argos
         cmd.build_option_index(data.parser_settings.case_insensitive);
         for (auto& c : cmd.commands)
         {
-            c->full_name = cmd.name + ' ' + c->name;
+            c->full_name = cmd.full_name + ' ' + c->name;
             finish_initialization(*c, data, start_id, argument_id);
         }
     }
-- 
2.43.0


From f03219080541f5f351e692c1019ec0ce95fede92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:52 +0000
Subject: [PATCH 15/35] fix: check the mandatory options of all commands that
 were entered

Only the mandatory options of the last command were checked. Those of
its parents, and of earlier commands when there can be several, were
ignored.
---
 single_src/Argos/Argos.cpp         | 19 ++++++++++++++++++-
 src/Argos/ArgumentIteratorImpl.cpp | 17 ++++++++++++++++-
 src/Argos/ArgumentIteratorImpl.hpp |  2 ++
 3 files changed, 36 insertions(+), 2 deletions(-)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index 986f907..98fa11c 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -1076,6 +1076,8 @@ namespace argos
 
         void error(const std::string& message = {});
 
+        bool has_all_mandatory_options(size_t first_level);
+
         bool has_all_mandatory_options(const ParsedArgumentsImpl& parsed_args,
                                        const CommandData& command);
 
@@ -1553,6 +1555,8 @@ namespace argos
         const auto& parsed_args = parsed_arguments();
         if (auto [next_cmd, i] = find_sibling_command(value); next_cmd)
         {
+            if (!has_all_mandatory_options(i + 1))
+                return {IteratorResultCode::ERROR, {}, {}};
             reactivate_multi_command_parent(i);
             return process_command(next_cmd);
         }
@@ -1685,7 +1689,7 @@ namespace argos
     bool ArgumentIteratorImpl::check_argument_and_option_counts()
     {
         auto& parsed_args = *parsed_arguments();
-        if (!has_all_mandatory_options(parsed_args, *m_command))
+        if (!has_all_mandatory_options(0))
             return false;
 
         if (*m_command->require_subcommand && parsed_args.subcommands().empty())
@@ -1793,6 +1797,19 @@ namespace argos
         m_state = State::ERROR;
     }
 
+    bool ArgumentIteratorImpl::has_all_mandatory_options(size_t first_level)
+    {
+        for (size_t i = m_parsed_args.size(); i-- > first_level;)
+        {
+            const auto parsed_args = m_parsed_args[i];
+            m_command = parsed_args->command();
+            if (!has_all_mandatory_options(*parsed_args, *m_command))
+                return false;
+        }
+        m_command = parsed_arguments()->command();
+        return true;
+    }
+
     bool ArgumentIteratorImpl::has_all_mandatory_options(
         const ParsedArgumentsImpl& parsed_args,
         const CommandData& command)
diff --git a/src/Argos/ArgumentIteratorImpl.cpp b/src/Argos/ArgumentIteratorImpl.cpp
index a2b7baa..554f171 100644
--- a/src/Argos/ArgumentIteratorImpl.cpp
+++ b/src/Argos/ArgumentIteratorImpl.cpp
@@ -300,6 +300,8 @@ namespace argos
         const auto& parsed_args = parsed_arguments();
         if (auto [next_cmd, i] = find_sibling_command(value); next_cmd)
         {
+            if (!has_all_mandatory_options(i + 1))
+                return {IteratorResultCode::ERROR, {}, {}};
             reactivate_multi_command_parent(i);
             return process_command(next_cmd);
         }
@@ -432,7 +434,7 @@ namespace argos
     bool ArgumentIteratorImpl::check_argument_and_option_counts()
     {
         auto& parsed_args = *parsed_arguments();
-        if (!has_all_mandatory_options(parsed_args, *m_command))
+        if (!has_all_mandatory_options(0))
             return false;
 
         if (*m_command->require_subcommand && parsed_args.subcommands().empty())
@@ -540,6 +542,19 @@ namespace argos
         m_state = State::ERROR;
     }
 
+    bool ArgumentIteratorImpl::has_all_mandatory_options(size_t first_level)
+    {
+        for (size_t i = m_parsed_args.size(); i-- > first_level;)
+        {
+            const auto parsed_args = m_parsed_args[i];
+            m_command = parsed_args->command();
+            if (!has_all_mandatory_options(*parsed_args, *m_command))
+                return false;
+        }
+        m_command = parsed_arguments()->command();
+        return true;
+    }
+
     bool ArgumentIteratorImpl::has_all_mandatory_options(
         const ParsedArgumentsImpl& parsed_args,
         const CommandData& command)
diff --git a/src/Argos/ArgumentIteratorImpl.hpp b/src/Argos/ArgumentIteratorImpl.hpp
index 659240c..bc0c7f2 100644
--- a/src/Argos/ArgumentIteratorImpl.hpp
+++ b/src/Argos/ArgumentIteratorImpl.hpp
@@ -95,6 +95,8 @@ namespace argos
 
         void error(const std::string& message = {});
 
+        bool has_all_mandatory_options(size_t first_level);
+
         bool has_all_mandatory_options(const ParsedArgumentsImpl& parsed_args,
                                        const CommandData& command);
 
-- 
2.43.0


From cb4f0f66d11ebbc35a19d2a582e4a50954d9664b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:18 +0000
Subject: [PATCH 16/35] fix: throw when a used ArgumentParser parses argc and
 argv again

The check that the parser is still valid came after its data had been
dereferenced.
---
 single_src/Argos/Argos.cpp   | 1 +
 src/Argos/ArgumentParser.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index 98fa11c..36e1ffd 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -1948,6 +1948,7 @@ namespace argos
         if (argc <= 0)
             return parse(std::vector<std::string_view>());
 
+        check_data();
         if (m_data->command.name == DEFAULT_NAME
             && std::strlen(argv[0]) != 0)
         {
diff --git a/src/Argos/ArgumentParser.cpp b/src/Argos/ArgumentParser.cpp
index e5ca061..d5b2f8a 100644
--- a/src/Argos/ArgumentParser.cpp
+++ b/src/Argos/ArgumentParser.cpp
@@ -123,6 +123,7 @@ namespace argos
         if (argc <= 0)
             return parse(std::vector<std::string_view>());
 
+        check_data();
         if (m_data->command.name == DEFAULT_NAME
             && std::strlen(argv[0]) != 0)
         {
-- 
2.43.0


From 262fcf032f9f1dd6238b38d7b139952d2a618d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:18 +0000
Subject: [PATCH 17/35] fix: let every function that gets argv use it for the
 program name

Only the non-const parse() did, the const parse() and make_iterator()
displayed UNINITIALIZED as the program's name in help and error texts.
---
 single_src/Argos/Argos.cpp   | 25 +++++++++++++++++--------
 src/Argos/ArgumentParser.cpp | 25 +++++++++++++++++--------
 2 files changed, 34 insertions(+), 16 deletions(-)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index 36e1ffd..3b65f4e 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -1857,6 +1857,12 @@ namespace argos
 
         constexpr char DEFAULT_NAME[] = "UNINITIALIZED";
 
+        void update_program_name(ParserData& data, const char* arg0)
+        {
+            if (data.command.name == DEFAULT_NAME && std::strlen(arg0) != 0)
+                data.command.name = get_base_name(arg0);
+        }
+
         ParsedArguments parse_arguments(std::vector<std::string_view> args,
                                         const std::shared_ptr<ParserData>& data)
         {
@@ -1949,12 +1955,7 @@ namespace argos
             return parse(std::vector<std::string_view>());
 
         check_data();
-        if (m_data->command.name == DEFAULT_NAME
-            && std::strlen(argv[0]) != 0)
-        {
-            m_data->command.name = get_base_name(argv[0]);
-        }
-
+        update_program_name(*m_data, argv[0]);
         return parse(std::vector<std::string_view>(argv + 1, argv + argc));
     }
 
@@ -1962,7 +1963,10 @@ namespace argos
     {
         if (argc <= 0)
             return parse(std::vector<std::string_view>());
-        return parse(std::vector<std::string_view>(argv + 1, argv + argc));
+        check_data();
+        auto data = make_copy(*m_data);
+        update_program_name(*data, argv[0]);
+        return parse_arguments({argv + 1, argv + argc}, std::move(data));
     }
 
     ParsedArguments ArgumentParser::parse(std::vector<std::string_view> args)
@@ -1981,6 +1985,8 @@ namespace argos
     {
         if (argc <= 0)
             ARGOS_THROW("argc and argv must at least contain the command name.");
+        check_data();
+        update_program_name(*m_data, argv[0]);
         return make_iterator(std::vector<std::string_view>(argv + 1, argv + argc));
     }
 
@@ -1988,7 +1994,10 @@ namespace argos
     {
         if (argc <= 0)
             ARGOS_THROW("argc and argv must at least contain the command name.");
-        return make_iterator(std::vector<std::string_view>(argv + 1, argv + argc));
+        check_data();
+        auto data = make_copy(*m_data);
+        update_program_name(*data, argv[0]);
+        return make_argument_iterator({argv + 1, argv + argc}, std::move(data));
     }
 
     ArgumentIterator
diff --git a/src/Argos/ArgumentParser.cpp b/src/Argos/ArgumentParser.cpp
index d5b2f8a..c7ed305 100644
--- a/src/Argos/ArgumentParser.cpp
+++ b/src/Argos/ArgumentParser.cpp
@@ -32,6 +32,12 @@ namespace argos
 
         constexpr char DEFAULT_NAME[] = "UNINITIALIZED";
 
+        void update_program_name(ParserData& data, const char* arg0)
+        {
+            if (data.command.name == DEFAULT_NAME && std::strlen(arg0) != 0)
+                data.command.name = get_base_name(arg0);
+        }
+
         ParsedArguments parse_arguments(std::vector<std::string_view> args,
                                         const std::shared_ptr<ParserData>& data)
         {
@@ -124,12 +130,7 @@ namespace argos
             return parse(std::vector<std::string_view>());
 
         check_data();
-        if (m_data->command.name == DEFAULT_NAME
-            && std::strlen(argv[0]) != 0)
-        {
-            m_data->command.name = get_base_name(argv[0]);
-        }
-
+        update_program_name(*m_data, argv[0]);
         return parse(std::vector<std::string_view>(argv + 1, argv + argc));
     }
 
@@ -137,7 +138,10 @@ namespace argos
     {
         if (argc <= 0)
             return parse(std::vector<std::string_view>());
-        return parse(std::vector<std::string_view>(argv + 1, argv + argc));
+        check_data();
+        auto data = make_copy(*m_data);
+        update_program_name(*data, argv[0]);
+        return parse_arguments({argv + 1, argv + argc}, std::move(data));
     }
 
     ParsedArguments ArgumentParser::parse(std::vector<std::string_view> args)
@@ -156,6 +160,8 @@ namespace argos
     {
         if (argc <= 0)
             ARGOS_THROW("argc and argv must at least contain the command name.");
+        check_data();
+        update_program_name(*m_data, argv[0]);
         return make_iterator(std::vector<std::string_view>(argv + 1, argv + argc));
     }
 
@@ -163,7 +169,10 @@ namespace argos
     {
         if (argc <= 0)
             ARGOS_THROW("argc and argv must at least contain the command name.");
-        return make_iterator(std::vector<std::string_view>(argv + 1, argv + argc));
+        check_data();
+        auto data = make_copy(*m_data);
+        update_program_name(*data, argv[0]);
+        return make_argument_iterator({argv + 1, argv + argc}, std::move(data));
     }
 
     ArgumentIterator
-- 
2.43.0


From 1d570911d0d90b84203f387ed307dd6b8ac98b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:40 +0000
Subject: [PATCH 18/35] fix: keep all unprocessed arguments in
 filter_parsed_arguments

Flags concatenated with a stopping option, and inserted arguments, are
unprocessed arguments that don't exist in argv. filter_parsed_arguments()
never got past them and dropped everything that followed.
---
 single_src/Argos/Argos.cpp    | 29 ++++++++++++++++++++---------
 src/Argos/ParsedArguments.cpp | 29 ++++++++++++++++++++---------
 2 files changed, 40 insertions(+), 18 deletions(-)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index 3b65f4e..6843ddc 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -5017,20 +5017,31 @@ namespace argos
         if (argc <= 1)
             return;
         const auto& unprocessed = m_impl->unprocessed_arguments();
-        auto it = unprocessed.begin();
+        // The arguments that follow a stopping option are at the end of both
+        // sequences. Before those, unprocessed can contain strings that aren't
+        // in argv: flags that were concatenated with the stopping option, and
+        // arguments that were inserted by callbacks.
+        auto last = unprocessed.end();
+        int in_end = argc;
+        while (last != unprocessed.begin() && in_end > 1
+               && argv[in_end - 1] == *std::prev(last))
+        {
+            --last;
+            --in_end;
+        }
         int out = 1;
-        if (!unprocessed.empty())
+        int in = 1;
+        for (auto it = unprocessed.begin(); it != last; ++it)
         {
-            for (int in = 1; in < argc; ++in)
+            const auto pos = std::find(argv + in, argv + in_end, *it);
+            if (pos != argv + in_end)
             {
-                if (argv[in] == *it)
-                {
-                    argv[out++] = argv[in];
-                    if (++it == unprocessed.end())
-                        break;
-                }
+                in = static_cast<int>(pos - argv) + 1;
+                argv[out++] = *pos;
             }
         }
+        while (in_end != argc)
+            argv[out++] = argv[in_end++];
         argc = out;
     }
 
diff --git a/src/Argos/ParsedArguments.cpp b/src/Argos/ParsedArguments.cpp
index dc9881c..4a8a527 100644
--- a/src/Argos/ParsedArguments.cpp
+++ b/src/Argos/ParsedArguments.cpp
@@ -139,20 +139,31 @@ namespace argos
         if (argc <= 1)
             return;
         const auto& unprocessed = m_impl->unprocessed_arguments();
-        auto it = unprocessed.begin();
+        // The arguments that follow a stopping option are at the end of both
+        // sequences. Before those, unprocessed can contain strings that aren't
+        // in argv: flags that were concatenated with the stopping option, and
+        // arguments that were inserted by callbacks.
+        auto last = unprocessed.end();
+        int in_end = argc;
+        while (last != unprocessed.begin() && in_end > 1
+               && argv[in_end - 1] == *std::prev(last))
+        {
+            --last;
+            --in_end;
+        }
         int out = 1;
-        if (!unprocessed.empty())
+        int in = 1;
+        for (auto it = unprocessed.begin(); it != last; ++it)
         {
-            for (int in = 1; in < argc; ++in)
+            const auto pos = std::find(argv + in, argv + in_end, *it);
+            if (pos != argv + in_end)
             {
-                if (argv[in] == *it)
-                {
-                    argv[out++] = argv[in];
-                    if (++it == unprocessed.end())
-                        break;
-                }
+                in = static_cast<int>(pos - argv) + 1;
+                argv[out++] = *pos;
             }
         }
+        while (in_end != argc)
+            argv[out++] = argv[in_end++];
         argc = out;
     }
 
-- 
2.43.0


From 36dba56089fdefd341ae84072103ec3a1524eefb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:40 +0000
Subject: [PATCH 19/35] fix: set the initial values of sub-commands' options

Only the initial values of the top-level options were used.
---
 single_src/Argos/Argos.cpp         | 29 +++++++++++++++++++----------
 src/Argos/ArgumentIteratorImpl.cpp | 27 +++++++++++++++++----------
 src/Argos/ArgumentIteratorImpl.hpp |  2 ++
 3 files changed, 38 insertions(+), 20 deletions(-)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index 6843ddc..66be810 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -1056,6 +1056,8 @@ namespace argos
 
         IteratorResult process_command(const CommandData* command);
 
+        void set_initial_values();
+
         void copy_remaining_arguments_to_parser_result();
 
         [[nodiscard]] size_t count_arguments() const;
@@ -1306,16 +1308,7 @@ namespace argos
                                    std::move(args))
           }
     {
-        auto& parsed_args = *parsed_arguments();
-        for (const auto& option : m_command->options)
-        {
-            if (!option->initial_value.empty())
-            {
-                parsed_args.append_value(option->value_id,
-                                         option->initial_value,
-                                         option->argument_id);
-            }
-        }
+        set_initial_values();
 
         if (!ArgumentCounter::requires_argument_count(*m_command))
         {
@@ -1596,6 +1589,7 @@ namespace argos
         m_parsed_args.push_back(parsed_arguments()->add_subcommand(command));
         m_command = command;
         m_state = State::ARGUMENTS_AND_OPTIONS;
+        set_initial_values();
         if (!ArgumentCounter::requires_argument_count(*m_command))
         {
             m_argument_counter = ArgumentCounter(*m_command);
@@ -1608,6 +1602,21 @@ namespace argos
         return {IteratorResultCode::COMMAND, command, m_iterator.current()};
     }
 
+    // ReSharper disable once CppMemberFunctionMayBeConst
+    void ArgumentIteratorImpl::set_initial_values()
+    {
+        auto& parsed_args = *parsed_arguments();
+        for (const auto& option : m_command->options)
+        {
+            if (!option->initial_value.empty())
+            {
+                parsed_args.append_value(option->value_id,
+                                         option->initial_value,
+                                         option->argument_id);
+            }
+        }
+    }
+
     // ReSharper disable once CppMemberFunctionMayBeConst
     void ArgumentIteratorImpl::copy_remaining_arguments_to_parser_result()
     {
diff --git a/src/Argos/ArgumentIteratorImpl.cpp b/src/Argos/ArgumentIteratorImpl.cpp
index 554f171..613430b 100644
--- a/src/Argos/ArgumentIteratorImpl.cpp
+++ b/src/Argos/ArgumentIteratorImpl.cpp
@@ -51,16 +51,7 @@ namespace argos
                                    std::move(args))
           }
     {
-        auto& parsed_args = *parsed_arguments();
-        for (const auto& option : m_command->options)
-        {
-            if (!option->initial_value.empty())
-            {
-                parsed_args.append_value(option->value_id,
-                                         option->initial_value,
-                                         option->argument_id);
-            }
-        }
+        set_initial_values();
 
         if (!ArgumentCounter::requires_argument_count(*m_command))
         {
@@ -341,6 +332,7 @@ namespace argos
         m_parsed_args.push_back(parsed_arguments()->add_subcommand(command));
         m_command = command;
         m_state = State::ARGUMENTS_AND_OPTIONS;
+        set_initial_values();
         if (!ArgumentCounter::requires_argument_count(*m_command))
         {
             m_argument_counter = ArgumentCounter(*m_command);
@@ -353,6 +345,21 @@ namespace argos
         return {IteratorResultCode::COMMAND, command, m_iterator.current()};
     }
 
+    // ReSharper disable once CppMemberFunctionMayBeConst
+    void ArgumentIteratorImpl::set_initial_values()
+    {
+        auto& parsed_args = *parsed_arguments();
+        for (const auto& option : m_command->options)
+        {
+            if (!option->initial_value.empty())
+            {
+                parsed_args.append_value(option->value_id,
+                                         option->initial_value,
+                                         option->argument_id);
+            }
+        }
+    }
+
     // ReSharper disable once CppMemberFunctionMayBeConst
     void ArgumentIteratorImpl::copy_remaining_arguments_to_parser_result()
     {
diff --git a/src/Argos/ArgumentIteratorImpl.hpp b/src/Argos/ArgumentIteratorImpl.hpp
index bc0c7f2..7adcf43 100644
--- a/src/Argos/ArgumentIteratorImpl.hpp
+++ b/src/Argos/ArgumentIteratorImpl.hpp
@@ -75,6 +75,8 @@ namespace argos
 
         IteratorResult process_command(const CommandData* command);
 
+        void set_initial_values();
+
         void copy_remaining_arguments_to_parser_result();
 
         [[nodiscard]] size_t count_arguments() const;
-- 
2.43.0


From 1c25a389959ddaa770a37a63a6b17bbee595026e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:06 +0000
Subject: [PATCH 20/35] fix: restore the indentation after every formatted text

Consecutive tabs and spaces at the start of a line pushed several
indentations, but only one was popped afterwards, and a list marker at
the end of a line or text caused the next one to be aligned.
---
 single_src/Argos/Argos.cpp  | 19 +++++++++++--------
 src/Argos/TextFormatter.cpp | 19 +++++++++++--------
 2 files changed, 22 insertions(+), 16 deletions(-)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index 66be810..3cf9602 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -6161,15 +6161,20 @@ namespace argos
 
     void TextFormatter::begin_alignment()
     {
-        if (m_writer.is_current_line_empty()
-            || m_state == State::UNALIGNED_MARKER)
+        if (m_state == State::ALIGNED_MARKER
+            || (m_state == State::ALIGNMENT
+                && m_writer.is_current_line_empty()))
         {
-            push_indentation(CURRENT_COLUMN);
+            // Replace the indentation of the current alignment.
+            const auto indent = m_writer.current_width();
+            m_writer.set_spaces(0);
+            pop_indentation();
+            push_indentation(indent);
             m_state = State::ALIGNMENT;
         }
-        else if (m_state == State::ALIGNED_MARKER)
+        else if (m_writer.is_current_line_empty()
+                 || m_state == State::UNALIGNED_MARKER)
         {
-            pop_indentation();
             push_indentation(CURRENT_COLUMN);
             m_state = State::ALIGNMENT;
         }
@@ -6188,10 +6193,8 @@ namespace argos
     void TextFormatter::end_alignment()
     {
         if (m_state == State::ALIGNMENT || m_state == State::ALIGNED_MARKER)
-        {
             pop_indentation();
-            m_state = State::NO_ALIGNMENT;
-        }
+        m_state = State::NO_ALIGNMENT;
     }
 }
 
diff --git a/src/Argos/TextFormatter.cpp b/src/Argos/TextFormatter.cpp
index ff39e22..c3acf61 100644
--- a/src/Argos/TextFormatter.cpp
+++ b/src/Argos/TextFormatter.cpp
@@ -246,15 +246,20 @@ namespace argos
 
     void TextFormatter::begin_alignment()
     {
-        if (m_writer.is_current_line_empty()
-            || m_state == State::UNALIGNED_MARKER)
+        if (m_state == State::ALIGNED_MARKER
+            || (m_state == State::ALIGNMENT
+                && m_writer.is_current_line_empty()))
         {
-            push_indentation(CURRENT_COLUMN);
+            // Replace the indentation of the current alignment.
+            const auto indent = m_writer.current_width();
+            m_writer.set_spaces(0);
+            pop_indentation();
+            push_indentation(indent);
             m_state = State::ALIGNMENT;
         }
-        else if (m_state == State::ALIGNED_MARKER)
+        else if (m_writer.is_current_line_empty()
+                 || m_state == State::UNALIGNED_MARKER)
         {
-            pop_indentation();
             push_indentation(CURRENT_COLUMN);
             m_state = State::ALIGNMENT;
         }
@@ -273,9 +278,7 @@ namespace argos
     void TextFormatter::end_alignment()
     {
         if (m_state == State::ALIGNMENT || m_state == State::ALIGNED_MARKER)
-        {
             pop_indentation();
-            m_state = State::NO_ALIGNMENT;
-        }
+        m_state = State::NO_ALIGNMENT;
     }
 }
-- 
2.43.0


From ec4ac544dad417dac59eec3d21854f0ee2e28265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:06 +0000
Subject: [PATCH 21/35] fix: don't throw if a line ends with a carriage return

---
 single_src/Argos/Argos.cpp  | 2 +-
 src/Argos/TextFormatter.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index 3cf9602..f786395 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -5937,7 +5937,7 @@ namespace argos
             if (pos == std::string_view::npos)
                 return {text, {}};
             if (text[pos] == '\n'
-                || (pos + 1 != text.size() && text[pos + 1] != '\n'))
+                || pos + 1 == text.size() || text[pos + 1] != '\n')
             {
                 return {text.substr(0, pos), text.substr(pos + 1)};
             }
diff --git a/src/Argos/TextFormatter.cpp b/src/Argos/TextFormatter.cpp
index c3acf61..4695a64 100644
--- a/src/Argos/TextFormatter.cpp
+++ b/src/Argos/TextFormatter.cpp
@@ -22,7 +22,7 @@ namespace argos
             if (pos == std::string_view::npos)
                 return {text, {}};
             if (text[pos] == '\n'
-                || (pos + 1 != text.size() && text[pos + 1] != '\n'))
+                || pos + 1 == text.size() || text[pos + 1] != '\n')
             {
                 return {text.substr(0, pos), text.substr(pos + 1)};
             }
-- 
2.43.0


From 27812698d600900928fd655ab77f25e60df25f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:23 +0000
Subject: [PATCH 22/35] fix: measure the help text labels in code points

The width of labels and help texts was counted in bytes, so texts with
non-ASCII characters were laid out differently from ASCII texts of the
same length.
---
 single_src/Argos/Argos.cpp | 4 ++--
 src/Argos/HelpText.cpp     | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index f786395..984563d 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -3926,8 +3926,8 @@ namespace argos
             {
                 for (const auto& [name, txt] : help_texts)
                 {
-                    name_widths.push_back(static_cast<unsigned>(name.size()));
-                    text_widths.push_back(static_cast<unsigned>(txt.size()));
+                    name_widths.push_back(static_cast<unsigned>(count_code_points(name)));
+                    text_widths.push_back(static_cast<unsigned>(count_code_points(txt)));
                 }
             }
 
diff --git a/src/Argos/HelpText.cpp b/src/Argos/HelpText.cpp
index 56c871c..a961cf6 100644
--- a/src/Argos/HelpText.cpp
+++ b/src/Argos/HelpText.cpp
@@ -9,7 +9,7 @@
 
 #include <algorithm>
 #include <iostream>
-
+#include "StringUtilities.hpp"
 
 namespace argos
 {
@@ -192,8 +192,8 @@ namespace argos
             {
                 for (const auto& [name, txt] : help_texts)
                 {
-                    name_widths.push_back(static_cast<unsigned>(name.size()));
-                    text_widths.push_back(static_cast<unsigned>(txt.size()));
+                    name_widths.push_back(static_cast<unsigned>(count_code_points(name)));
+                    text_widths.push_back(static_cast<unsigned>(count_code_points(txt)));
                 }
             }
 
-- 
2.43.0


From 41bfa5228310b3911fa27fbb0774dd4dcc9ffc87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:14 +0000
Subject: [PATCH 23/35] fix: don't separate a word from its trailing
 punctuation

The end of a word with a split rule was treated as a split point even if
punctuation followed, and a period could end up alone on the next line.
---
 single_src/Argos/Argos.cpp | 4 ++++
 src/Argos/WordSplitter.cpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index 984563d..24cb4a5 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -6379,6 +6379,10 @@ namespace argos
                 length += count_code_points(word.substr(prev.index, split.index - prev.index));
                 if (length + (split.separator ? 1 : 0) > max_length)
                     break;
+                // Don't move just the trailing punctuation to the next line.
+                if (!must_split && split.index == key.size()
+                    && key.size() != word.size())
+                    break;
                 prev = split;
             }
             if (prev.index > start_index + 1)
diff --git a/src/Argos/WordSplitter.cpp b/src/Argos/WordSplitter.cpp
index 07ae812..c80610a 100644
--- a/src/Argos/WordSplitter.cpp
+++ b/src/Argos/WordSplitter.cpp
@@ -74,6 +74,10 @@ namespace argos
                 length += count_code_points(word.substr(prev.index, split.index - prev.index));
                 if (length + (split.separator ? 1 : 0) > max_length)
                     break;
+                // Don't move just the trailing punctuation to the next line.
+                if (!must_split && split.index == key.size()
+                    && key.size() != word.size())
+                    break;
                 prev = split;
             }
             if (prev.index > start_index + 1)
-- 
2.43.0


From dfa115a04462305b73766fe8005ba52a90c65a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:50 +0000
Subject: [PATCH 24/35] fix: keep the unprocessed arguments of sub-commands in
 filter_parsed_arguments

---
 single_src/Argos/Argos.cpp    | 15 ++++++++++++++-
 src/Argos/ParsedArguments.cpp | 15 ++++++++++++++-
 2 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index 24cb4a5..8c030eb 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -5021,11 +5021,24 @@ namespace argos
         return m_impl->unprocessed_arguments();
     }
 
+    namespace
+    {
+        void get_unprocessed_arguments(const ParsedArgumentsImpl& args,
+                                       std::vector<std::string>& result)
+        {
+            const auto& unprocessed = args.unprocessed_arguments();
+            result.insert(result.end(), unprocessed.begin(), unprocessed.end());
+            for (const auto& subcommand : args.subcommands())
+                get_unprocessed_arguments(*subcommand, result);
+        }
+    }
+
     void ParsedArguments::filter_parsed_arguments(int& argc, char**& argv) const
     {
         if (argc <= 1)
             return;
-        const auto& unprocessed = m_impl->unprocessed_arguments();
+        std::vector<std::string> unprocessed;
+        get_unprocessed_arguments(*m_impl, unprocessed);
         // The arguments that follow a stopping option are at the end of both
         // sequences. Before those, unprocessed can contain strings that aren't
         // in argv: flags that were concatenated with the stopping option, and
diff --git a/src/Argos/ParsedArguments.cpp b/src/Argos/ParsedArguments.cpp
index 4a8a527..6b24489 100644
--- a/src/Argos/ParsedArguments.cpp
+++ b/src/Argos/ParsedArguments.cpp
@@ -134,11 +134,24 @@ namespace argos
         return m_impl->unprocessed_arguments();
     }
 
+    namespace
+    {
+        void get_unprocessed_arguments(const ParsedArgumentsImpl& args,
+                                       std::vector<std::string>& result)
+        {
+            const auto& unprocessed = args.unprocessed_arguments();
+            result.insert(result.end(), unprocessed.begin(), unprocessed.end());
+            for (const auto& subcommand : args.subcommands())
+                get_unprocessed_arguments(*subcommand, result);
+        }
+    }
+
     void ParsedArguments::filter_parsed_arguments(int& argc, char**& argv) const
     {
         if (argc <= 1)
             return;
-        const auto& unprocessed = m_impl->unprocessed_arguments();
+        std::vector<std::string> unprocessed;
+        get_unprocessed_arguments(*m_impl, unprocessed);
         // The arguments that follow a stopping option are at the end of both
         // sequences. Before those, unprocessed can contain strings that aren't
         // in argv: flags that were concatenated with the stopping option, and
-- 
2.43.0


From cd8f17c0f0e8c0bc281a112e2103aec08a4d0195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:55 +0000
Subject: [PATCH 25/35] fix: report the source of a value that is read through
 a view

---
 single_src/Argos/Argos.cpp    | 2 +-
 src/Argos/ParsedArguments.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index 8c030eb..9b72dd8 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -4957,7 +4957,7 @@ namespace argos
     ArgumentValue ParsedArguments::value(const IArgumentView& arg) const
     {
         if (auto value = m_impl->get_value(arg.value_id()))
-            return {value->first, m_impl, arg.value_id(), arg.argument_id()};
+            return {value->first, m_impl, arg.value_id(), value->second};
         else
             return {{}, m_impl, arg.value_id(), arg.argument_id()};
     }
diff --git a/src/Argos/ParsedArguments.cpp b/src/Argos/ParsedArguments.cpp
index 6b24489..034505c 100644
--- a/src/Argos/ParsedArguments.cpp
+++ b/src/Argos/ParsedArguments.cpp
@@ -70,7 +70,7 @@ namespace argos
     ArgumentValue ParsedArguments::value(const IArgumentView& arg) const
     {
         if (auto value = m_impl->get_value(arg.value_id()))
-            return {value->first, m_impl, arg.value_id(), arg.argument_id()};
+            return {value->first, m_impl, arg.value_id(), value->second};
         else
             return {{}, m_impl, arg.value_id(), arg.argument_id()};
     }
-- 
2.43.0


From cca0b4dc7b1df12d89f7afdc1849e1b7f5e75ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:55 +0000
Subject: [PATCH 26/35] fix: report an error if the index of a value is too
 great

---
 single_src/Argos/Argos.cpp   | 5 ++++-
 src/Argos/ArgumentValues.cpp | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index 9b72dd8..8943a06 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -2728,7 +2728,10 @@ namespace argos
         if (m_values.empty())
             return {{}, m_args, m_value_id, {}};
 
-        const auto& [value, arg_id] = m_values.at(index);
+        if (index >= m_values.size())
+            error("Value index out of range: " + std::to_string(index) + ".");
+
+        const auto& [value, arg_id] = m_values[index];
         return {value, m_args, m_value_id, arg_id};
     }
 
diff --git a/src/Argos/ArgumentValues.cpp b/src/Argos/ArgumentValues.cpp
index cea150c..a105da0 100644
--- a/src/Argos/ArgumentValues.cpp
+++ b/src/Argos/ArgumentValues.cpp
@@ -151,7 +151,10 @@ namespace argos
         if (m_values.empty())
             return {{}, m_args, m_value_id, {}};
 
-        const auto& [value, arg_id] = m_values.at(index);
+        if (index >= m_values.size())
+            error("Value index out of range: " + std::to_string(index) + ".");
+
+        const auto& [value, arg_id] = m_values[index];
         return {value, m_args, m_value_id, arg_id};
     }
 
-- 
2.43.0


From 1be2197813a1ced9fb2b977b7585dcd5c334716c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:32 +0000
Subject: [PATCH 27/35] fix: measure text that ends with an incomplete UTF-8
 character by bytes

---
 single_src/Argos/Argos.cpp    | 2 +-
 src/Argos/StringUtilities.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index 8943a06..d2b166b 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -5874,7 +5874,7 @@ namespace argos
                 return str.size();
             }
         }
-        return count;
+        return char_len == 0 ? count : str.size();
     }
 
     size_t find_nth_code_point(std::string_view str, size_t n)
diff --git a/src/Argos/StringUtilities.cpp b/src/Argos/StringUtilities.cpp
index 4221ddf..e2a76ce 100644
--- a/src/Argos/StringUtilities.cpp
+++ b/src/Argos/StringUtilities.cpp
@@ -157,7 +157,7 @@ namespace argos
                 return str.size();
             }
         }
-        return count;
+        return char_len == 0 ? count : str.size();
     }
 
     size_t find_nth_code_point(std::string_view str, size_t n)
-- 
2.43.0


From 4a67c70130efd34e4714d1597a35fa5c48a74fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:43 +0000
Subject: [PATCH 28/35] fix: don't split off a single multi-byte character from
 a word

---
 single_src/Argos/Argos.cpp | 6 ++++--
 src/Argos/WordSplitter.cpp | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index d2b166b..16ea818 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -6401,9 +6401,11 @@ namespace argos
                     break;
                 prev = split;
             }
-            if (prev.index > start_index + 1)
+            const auto first = word.substr(start_index,
+                                           prev.index - start_index);
+            if (count_code_points(first) > 1)
                 return {
-                    word.substr(start_index, prev.index - start_index),
+                    first,
                     prev.separator,
                     word.substr(prev.index)
                 };
diff --git a/src/Argos/WordSplitter.cpp b/src/Argos/WordSplitter.cpp
index c80610a..4a8be41 100644
--- a/src/Argos/WordSplitter.cpp
+++ b/src/Argos/WordSplitter.cpp
@@ -80,9 +80,11 @@ namespace argos
                     break;
                 prev = split;
             }
-            if (prev.index > start_index + 1)
+            const auto first = word.substr(start_index,
+                                           prev.index - start_index);
+            if (count_code_points(first) > 1)
                 return {
-                    word.substr(start_index, prev.index - start_index),
+                    first,
                     prev.separator,
                     word.substr(prev.index)
                 };
-- 
2.43.0


From 074105c896783f65c328b481c505b154eabfecab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:00 +0000
Subject: [PATCH 29/35] fix: don't join words if there isn't room for the
 indentation

---
 single_src/Argos/Argos.cpp  | 7 +++++--
 src/Argos/TextFormatter.cpp | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index 16ea818..246c41a 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -6041,7 +6041,9 @@ namespace argos
         if (indent == CURRENT_COLUMN)
         {
             indent = m_writer.current_width();
-            m_writer.set_spaces(0);
+            // Keep the spaces if there isn't room for the indentation.
+            if (indent < m_writer.line_width())
+                m_writer.set_spaces(0);
         }
         m_indents.push_back(indent);
         m_writer.set_indentation(indent);
@@ -6183,7 +6185,8 @@ namespace argos
         {
             // Replace the indentation of the current alignment.
             const auto indent = m_writer.current_width();
-            m_writer.set_spaces(0);
+            if (indent < m_writer.line_width())
+                m_writer.set_spaces(0);
             pop_indentation();
             push_indentation(indent);
             m_state = State::ALIGNMENT;
diff --git a/src/Argos/TextFormatter.cpp b/src/Argos/TextFormatter.cpp
index 4695a64..ee286c4 100644
--- a/src/Argos/TextFormatter.cpp
+++ b/src/Argos/TextFormatter.cpp
@@ -110,7 +110,9 @@ namespace argos
         if (indent == CURRENT_COLUMN)
         {
             indent = m_writer.current_width();
-            m_writer.set_spaces(0);
+            // Keep the spaces if there isn't room for the indentation.
+            if (indent < m_writer.line_width())
+                m_writer.set_spaces(0);
         }
         m_indents.push_back(indent);
         m_writer.set_indentation(indent);
@@ -252,7 +254,8 @@ namespace argos
         {
             // Replace the indentation of the current alignment.
             const auto indent = m_writer.current_width();
-            m_writer.set_spaces(0);
+            if (indent < m_writer.line_width())
+                m_writer.set_spaces(0);
             pop_indentation();
             push_indentation(indent);
             m_state = State::ALIGNMENT;
-- 
2.43.0


From 27bb5232aeec438246be5e5e8872d01064e1d72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:45 +0000
Subject: [PATCH 30/35] fix: split at a split point rather than before trailing
 punctuation

---
 single_src/Argos/Argos.cpp | 19 ++++++++++---------
 src/Argos/WordSplitter.cpp | 19 ++++++++++---------
 2 files changed, 20 insertions(+), 18 deletions(-)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index 246c41a..3b6371f 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -6390,25 +6390,26 @@ namespace argos
         if (it != m_splits.end())
         {
             Split prev = {unsigned(start_index), '\0'};
-            size_t length = 0;
+            size_t prev_length = 0;
             for (const auto split: it->second)
             {
                 if (split.index < start_index + 1)
                     continue;
-                length += count_code_points(word.substr(prev.index, split.index - prev.index));
+                const auto length = prev_length + count_code_points(
+                    word.substr(prev.index, split.index - prev.index));
                 if (length + (split.separator ? 1 : 0) > max_length)
                     break;
-                // Don't move just the trailing punctuation to the next line.
-                if (!must_split && split.index == key.size()
-                    && key.size() != word.size())
+                // Don't move just the trailing punctuation to the next line
+                // unless there is nowhere else to split the word.
+                if ((!must_split || prev_length > 1)
+                    && split.index == key.size() && key.size() != word.size())
                     break;
                 prev = split;
+                prev_length = length;
             }
-            const auto first = word.substr(start_index,
-                                           prev.index - start_index);
-            if (count_code_points(first) > 1)
+            if (prev_length > 1)
                 return {
-                    first,
+                    word.substr(start_index, prev.index - start_index),
                     prev.separator,
                     word.substr(prev.index)
                 };
diff --git a/src/Argos/WordSplitter.cpp b/src/Argos/WordSplitter.cpp
index 4a8be41..6a38d4d 100644
--- a/src/Argos/WordSplitter.cpp
+++ b/src/Argos/WordSplitter.cpp
@@ -66,25 +66,26 @@ namespace argos
         if (it != m_splits.end())
         {
             Split prev = {unsigned(start_index), '\0'};
-            size_t length = 0;
+            size_t prev_length = 0;
             for (const auto split: it->second)
             {
                 if (split.index < start_index + 1)
                     continue;
-                length += count_code_points(word.substr(prev.index, split.index - prev.index));
+                const auto length = prev_length + count_code_points(
+                    word.substr(prev.index, split.index - prev.index));
                 if (length + (split.separator ? 1 : 0) > max_length)
                     break;
-                // Don't move just the trailing punctuation to the next line.
-                if (!must_split && split.index == key.size()
-                    && key.size() != word.size())
+                // Don't move just the trailing punctuation to the next line
+                // unless there is nowhere else to split the word.
+                if ((!must_split || prev_length > 1)
+                    && split.index == key.size() && key.size() != word.size())
                     break;
                 prev = split;
+                prev_length = length;
             }
-            const auto first = word.substr(start_index,
-                                           prev.index - start_index);
-            if (count_code_points(first) > 1)
+            if (prev_length > 1)
                 return {
-                    first,
+                    word.substr(start_index, prev.index - start_index),
                     prev.separator,
                     word.substr(prev.index)
                 };
-- 
2.43.0


From 58b930053fab605a78afbb0cebfdec86f0d1c6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:21 +0000
Subject: [PATCH 31/35] fix: don't let copy_from combine arguments and
 sub-commands

---
 single_src/Argos/Argos.cpp | 6 ++++++
 src/Argos/CommandData.cpp  | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index 3b6371f..d2a7376 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -3243,6 +3243,12 @@ namespace argos
 
     void CommandData::copy_from(const CommandData& cmd)
     {
+        if ((!arguments.empty() || !cmd.arguments.empty())
+            && (!commands.empty() || !cmd.commands.empty()))
+        {
+            ARGOS_THROW("A command cannot have both arguments and subcommands.");
+        }
+
         for (const auto& a : cmd.arguments)
             arguments.push_back(std::make_unique<ArgumentData>(*a));
 
diff --git a/src/Argos/CommandData.cpp b/src/Argos/CommandData.cpp
index 531fe0e..50ac778 100644
--- a/src/Argos/CommandData.cpp
+++ b/src/Argos/CommandData.cpp
@@ -154,6 +154,12 @@ namespace argos
 
     void CommandData::copy_from(const CommandData& cmd)
     {
+        if ((!arguments.empty() || !cmd.arguments.empty())
+            && (!commands.empty() || !cmd.commands.empty()))
+        {
+            ARGOS_THROW("A command cannot have both arguments and subcommands.");
+        }
+
         for (const auto& a : cmd.arguments)
             arguments.push_back(std::make_unique<ArgumentData>(*a));
 
-- 
2.43.0


From e397bf436d4fe0f65dcf625e3a8fbc6534d82e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:22 +0000
Subject: [PATCH 32/35] fix: return the help text of a command from
 CommandView::help

---
 single_src/Argos/Argos.cpp | 2 +-
 src/Argos/CommandView.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index d2a7376..f2b9b83 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -3566,7 +3566,7 @@ namespace argos
 
     std::string CommandView::help() const
     {
-        auto it = m_command->texts.find(TextId::ABOUT);
+        auto it = m_command->texts.find(TextId::HELP);
         return it != m_command->texts.end() ? get_text(it->second) : "";
     }
 
diff --git a/src/Argos/CommandView.cpp b/src/Argos/CommandView.cpp
index d1f9cef..087a2d1 100644
--- a/src/Argos/CommandView.cpp
+++ b/src/Argos/CommandView.cpp
@@ -18,7 +18,7 @@ namespace argos
 
     std::string CommandView::help() const
     {
-        auto it = m_command->texts.find(TextId::ABOUT);
+        auto it = m_command->texts.find(TextId::HELP);
         return it != m_command->texts.end() ? get_text(it->second) : "";
     }
 
-- 
2.43.0


From ceba8bd23801fae30fb94c464e986e6e48a49e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:22 +0000
Subject: [PATCH 33/35] fix: throw if Command::copy_from is given a command
 that has been moved from

---
 single_src/Argos/Argos.cpp | 2 +-
 src/Argos/Command.cpp      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index f2b9b83..bd75b14 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -3072,7 +3072,7 @@ namespace argos
     Command& Command::copy_from(Command& command)
     {
         check_command();
-        data_->copy_from(*command.data_);
+        data_->copy_from(command.internal_ref());
         return *this;
     }
 
diff --git a/src/Argos/Command.cpp b/src/Argos/Command.cpp
index e5993f4..1402b12 100644
--- a/src/Argos/Command.cpp
+++ b/src/Argos/Command.cpp
@@ -167,7 +167,7 @@ namespace argos
     Command& Command::copy_from(Command& command)
     {
         check_command();
-        data_->copy_from(*command.data_);
+        data_->copy_from(command.internal_ref());
         return *this;
     }
 
-- 
2.43.0


From 4aae7b52a6da146ba8af3ae81c0e5b175c3575ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:06 +0000
Subject: [PATCH 34/35] fix: don't count arguments inserted by the callback of
 a last-argument option

---
 single_src/Argos/Argos.cpp         | 16 +++++++++++-----
 src/Argos/ArgumentIteratorImpl.cpp | 13 +++++++++----
 src/Argos/ArgumentIteratorImpl.hpp |  3 ++-
 3 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index bd75b14..f14064f 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -1072,7 +1072,8 @@ namespace argos
 
         void reactivate_multi_command_parent(size_t index);
 
-        void update_arguments(const std::vector<std::string>& args);
+        void update_arguments(const std::vector<std::string>& args,
+                              bool recount = true);
 
         void set_breaking_option(const OptionData* option);
 
@@ -1456,17 +1457,21 @@ namespace argos
             m_state = State::ARGUMENTS_ONLY;
         }
 
+        // What follows an option that ends the command doesn't count as
+        // arguments to the command.
+        const bool recount = opt.type == OptionType::NORMAL
+                             || opt.type == OptionType::LAST_OPTION;
         if (opt.callback)
         {
             CallbackArguments args(OptionView(&opt), arg, parsed_args);
             opt.callback(args);
-            update_arguments(args.new_arguments);
+            update_arguments(args.new_arguments, recount);
         }
         if (m_data->parser_settings.option_callback)
         {
             CallbackArguments args(OptionView(&opt), arg, parsed_args);
             m_data->parser_settings.option_callback(args);
-            update_arguments(args.new_arguments);
+            update_arguments(args.new_arguments, recount);
         }
 
         switch (opt.type)
@@ -1771,13 +1776,14 @@ namespace argos
     }
 
     void ArgumentIteratorImpl::update_arguments(
-        const std::vector<std::string>& args)
+        const std::vector<std::string>& args,
+        bool recount)
     {
         if (args.empty())
             return;
 
         m_iterator.insert(args);
-        if (!ArgumentCounter::requires_argument_count(*m_command))
+        if (!recount || !ArgumentCounter::requires_argument_count(*m_command))
             return;
 
         auto current_count = m_argument_counter.count();
diff --git a/src/Argos/ArgumentIteratorImpl.cpp b/src/Argos/ArgumentIteratorImpl.cpp
index 613430b..a781868 100644
--- a/src/Argos/ArgumentIteratorImpl.cpp
+++ b/src/Argos/ArgumentIteratorImpl.cpp
@@ -199,17 +199,21 @@ namespace argos
             m_state = State::ARGUMENTS_ONLY;
         }
 
+        // What follows an option that ends the command doesn't count as
+        // arguments to the command.
+        const bool recount = opt.type == OptionType::NORMAL
+                             || opt.type == OptionType::LAST_OPTION;
         if (opt.callback)
         {
             CallbackArguments args(OptionView(&opt), arg, parsed_args);
             opt.callback(args);
-            update_arguments(args.new_arguments);
+            update_arguments(args.new_arguments, recount);
         }
         if (m_data->parser_settings.option_callback)
         {
             CallbackArguments args(OptionView(&opt), arg, parsed_args);
             m_data->parser_settings.option_callback(args);
-            update_arguments(args.new_arguments);
+            update_arguments(args.new_arguments, recount);
         }
 
         switch (opt.type)
@@ -514,13 +518,14 @@ namespace argos
     }
 
     void ArgumentIteratorImpl::update_arguments(
-        const std::vector<std::string>& args)
+        const std::vector<std::string>& args,
+        bool recount)
     {
         if (args.empty())
             return;
 
         m_iterator.insert(args);
-        if (!ArgumentCounter::requires_argument_count(*m_command))
+        if (!recount || !ArgumentCounter::requires_argument_count(*m_command))
             return;
 
         auto current_count = m_argument_counter.count();
diff --git a/src/Argos/ArgumentIteratorImpl.hpp b/src/Argos/ArgumentIteratorImpl.hpp
index 7adcf43..dc9ba4a 100644
--- a/src/Argos/ArgumentIteratorImpl.hpp
+++ b/src/Argos/ArgumentIteratorImpl.hpp
@@ -91,7 +91,8 @@ namespace argos
 
         void reactivate_multi_command_parent(size_t index);
 
-        void update_arguments(const std::vector<std::string>& args);
+        void update_arguments(const std::vector<std::string>& args,
+                              bool recount = true);
 
         void set_breaking_option(const OptionData* option);
 
-- 
2.43.0


From 167b28c159dd64167ea1f5dfc2f7437dbf527026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:38 +0000
Subject: [PATCH 35/35] fix: report the origin of a value read through the
 builder with a view

---
 single_src/Argos/Argos.cpp           | 2 +-
 src/Argos/ParsedArgumentsBuilder.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index f14064f..1e6d95c 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -5238,7 +5238,7 @@ namespace argos
     ParsedArgumentsBuilder::value(const IArgumentView& arg) const
     {
         if (auto value = m_impl->get_value(arg.value_id()))
-            return {value->first, m_impl, arg.value_id(), arg.argument_id()};
+            return {value->first, m_impl, arg.value_id(), value->second};
         else
             return {{}, m_impl, arg.value_id(), arg.argument_id()};
     }
diff --git a/src/Argos/ParsedArgumentsBuilder.cpp b/src/Argos/ParsedArgumentsBuilder.cpp
index c189735..fac5a32 100644
--- a/src/Argos/ParsedArgumentsBuilder.cpp
+++ b/src/Argos/ParsedArgumentsBuilder.cpp
@@ -76,7 +76,7 @@ namespace argos
     ParsedArgumentsBuilder::value(const IArgumentView& arg) const
     {
         if (auto value = m_impl->get_value(arg.value_id()))
-            return {value->first, m_impl, arg.value_id(), arg.argument_id()};
+            return {value->first, m_impl, arg.value_id(), value->second};
         else
             return {{}, m_impl, arg.value_id(), arg.argument_id()};
     }
-- 
2.43.0

