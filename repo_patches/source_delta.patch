From 7c8f88a4ec4606539cf1f6f23b9eb26263c6d5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:39 +0000
Subject: [PATCH 01/35] fix: signed overflow when converting the minimum value
 of a signed type

---
 include/cli/detail/fromstring.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/cli/detail/fromstring.h b/include/cli/detail/fromstring.h
index 606b3e2..db5f985 100644
--- a/include/cli/detail/fromstring.h
+++ b/include/cli/detail/fromstring.h
@@ -131,10 +131,13 @@ inline T signed_from_string(std::string s)
     {
         s = s.substr(1);
         const U val = unsigned_digits_from_string<U>(s);
-        auto min = std::numeric_limits<T>::min(); // this to avoid overflow warnings. Please NOTE: const auto produces warning!
-        if ( val > static_cast<U>( - min ) )
+        // the negation is done in the unsigned type, because -min() overflows the signed one
+        const U absMin = static_cast<U>( static_cast<U>(std::numeric_limits<T>::max()) + 1 );
+        if ( val > absMin )
             throw bad_conversion();
-        return (- static_cast<T>(val));
+        if ( val == absMin )
+            return std::numeric_limits<T>::min();
+        return static_cast<T>( - static_cast<T>(val) );
     }
     else if (s[0] == '+')
     {
-- 
2.43.0


From c462fb456702746be28c4e24dd880d116e79dc4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:39 +0000
Subject: [PATCH 02/35] fix: a std::bad_cast thrown by a command handler was
 taken for a wrong parameter

---
 include/cli/cli.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/cli/cli.h b/include/cli/cli.h
index 437e838..e44b2a4 100644
--- a/include/cli/cli.h
+++ b/include/cli/cli.h
@@ -781,13 +781,15 @@ namespace cli
             if (cmdLine.size() != paramSize+1) return false;
             if (Name() == cmdLine[0])
             {
+                bool converted = false;
                 try
                 {
-                    auto g = [&](auto ... pars){ func( session.OutStream(), pars... ); };
+                    auto g = [&](auto ... pars){ converted = true; func( session.OutStream(), pars... ); };
                     Select<Args...>::Exec(g, std::next(cmdLine.begin()), cmdLine.end());
                 }
                 catch (std::bad_cast&)
                 {
+                    if (converted) throw; // thrown by the handler, not by the conversion of its parameters
                     return false;
                 }
                 return true;
-- 
2.43.0


From e53fc6553387e9c1b312b32a3706fcada1cc6912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:39 +0000
Subject: [PATCH 03/35] fix: out of bounds access executing an entry of an
 empty history or browsing one of size 0

---
 include/cli/detail/history.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/cli/detail/history.h b/include/cli/detail/history.h
index e8eb401..09e1a4d 100644
--- a/include/cli/detail/history.h
+++ b/include/cli/detail/history.h
@@ -79,6 +79,8 @@ public:
     // Otherwise, the line overwrites the current item.
     std::string Previous(const std::string& line)
     {
+        if (maxSize == 0) // nothing to browse
+            return line;
         if (mode == Mode::inserting)
         {
             Insert(line);
@@ -155,8 +157,8 @@ public:
 
     void ForgetLatest()
     {
-        assert(!buffer.empty());
-        buffer.pop_front();
+        if (!buffer.empty()) // it's empty when maxSize is 0
+            buffer.pop_front();
     }
 
 private:
@@ -172,7 +174,7 @@ private:
 
     std::size_t IdToIndex(std::size_t id) const
     {
-        if (id < idOfOldest || id > idOfOldest+buffer.size()-1)
+        if (buffer.empty() || id < idOfOldest || id > idOfOldest+buffer.size()-1)
             throw std::out_of_range("Index not found in history");
         return idOfOldest + buffer.size() - 1 - id;
     }
-- 
2.43.0


From e837b5359c1c2170fc5800db0ed36bb4b7fc0ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:39 +0000
Subject: [PATCH 04/35] fix: commands of previous sessions stored again after a
 repeated or a "!" command

---
 include/cli/detail/history.h | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/include/cli/detail/history.h b/include/cli/detail/history.h
index 09e1a4d..6f2b1de 100644
--- a/include/cli/detail/history.h
+++ b/include/cli/detail/history.h
@@ -54,20 +54,30 @@ public:
     // Otherwise, the item is added to the front of the container
     void NewCommand(const std::string& item)
     {
-        ++commands;
         current = 0;
         if (mode == Mode::browsing)
         {
             assert(!buffer.empty());
             if (buffer.size() > 1 && buffer[1] == item) // try to insert an element identical to last one
+            {
                 buffer.pop_front();
+                commands = std::max<std::size_t>(commands, 1); // the last one is a command of this session, now
+            }
             else // the item was not identical
+            {
                 buffer[current] = item;
+                ++commands;
+            }
         }
         else // Mode::inserting
         {
             if (buffer.empty() || buffer[0] != item) // insert an element not equal to last one
+            {
                 Insert(item);
+                ++commands;
+            }
+            else
+                commands = std::max<std::size_t>(commands, 1); // the last one is a command of this session, now
         }
         mode = Mode::inserting;
     }
@@ -158,7 +168,11 @@ public:
     void ForgetLatest()
     {
         if (!buffer.empty()) // it's empty when maxSize is 0
+        {
             buffer.pop_front();
+            if (commands > 0)
+                --commands;
+        }
     }
 
 private:
@@ -192,7 +206,7 @@ private:
     const std::size_t maxSize;
     std::deque<std::string> buffer; // buffer[0] is the newest element
     std::size_t current = 0;
-    std::size_t commands = 0; // number of commands issued
+    std::size_t commands = 0; // number of commands issued, without the consecutive duplicates
     enum class Mode { inserting, browsing };
     Mode mode = Mode::inserting;
     std::size_t idOfOldest = 0; // the id of the oldest element kept in the history
-- 
2.43.0


From c870b835bffcb91df49a25ac3ae2eb13cd8b3a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:39 +0000
Subject: [PATCH 05/35] fix: completions proposed the content of disabled menus

---
 include/cli/cli.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/cli/cli.h b/include/cli/cli.h
index e44b2a4..54f5ca9 100644
--- a/include/cli/cli.h
+++ b/include/cli/cli.h
@@ -543,6 +543,7 @@ namespace cli
         // - the recursive completions of parent menu
         std::vector<std::string> GetCompletions(const std::string& currentLine) const
         {
+            if (!IsEnabled()) return {};
             auto result = cli::GetCompletions(cmds, currentLine);
             if (parent != nullptr)
             {
@@ -569,6 +570,7 @@ namespace cli
          */
         std::vector<std::string> GetCompletionRecursive(const std::string& line) const override
         {
+            if (!IsEnabled()) return {};
             if (line.rfind(Name(), 0) == 0) // line starts_with Name()
             {
                 return GetCompletionRecursiveHelper(line, Name());
@@ -593,6 +595,7 @@ namespace cli
          */
         std::vector<std::string> GetCompletionWithParent(const std::string& line) const
         {
+            if (!IsEnabled()) return {};
             if (line.rfind(Name(), 0) == 0) // line starts_with Name()
             {
                 return GetCompletionRecursiveHelper(line, Name());
-- 
2.43.0


From 12b3e9a367bd4036fd796e649ddbe863ae456d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:39 +0000
Subject: [PATCH 06/35] fix: file session dropped an unterminated last line and
 could exit twice

---
 include/cli/clifilesession.h | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/include/cli/clifilesession.h b/include/cli/clifilesession.h
index 68177e5..561e6aa 100644
--- a/include/cli/clifilesession.h
+++ b/include/cli/clifilesession.h
@@ -64,13 +64,10 @@ public:
         {
             Prompt();
             std::string line;
-            if (!in.good())
-                Exit();
-            std::getline(in, line);
-            if (in.eof())
-                Exit();
-            else
+            if (std::getline(in, line))
                 Feed(line);
+            else
+                Exit();
         }
     }
 
-- 
2.43.0


From 1c0660f7468064f6c54af9053e709b554452a49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:59 +0000
Subject: [PATCH 07/35] fix: in telnet sessions every unknown escape sequence
 ending with "~" deleted a char

---
 include/cli/detail/genericasioremotecli.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/cli/detail/genericasioremotecli.h b/include/cli/detail/genericasioremotecli.h
index f8f7760..985f0fc 100644
--- a/include/cli/detail/genericasioremotecli.h
+++ b/include/cli/detail/genericasioremotecli.h
@@ -517,7 +517,8 @@ protected:
                     case 67: step = Step::_1; Notify(std::make_pair(KeyType::right,' ')); break;
                     case 70: step = Step::_1; Notify(std::make_pair(KeyType::end,' ')); break;
                     case 72: step = Step::_1; Notify(std::make_pair(KeyType::home,' ')); break;
-                    default: step = Step::_4; break;  // not arrow keys
+                    case 51: step = Step::_4; break;  // maybe canc
+                    default: step = Step::_5; break;  // unknown
                 }
                 break;
 
@@ -529,6 +530,11 @@ protected:
 
                 break;
 
+            case Step::_5: // the last char of an unknown sequence
+                Notify(std::make_pair(KeyType::ignored,' '));
+                step = Step::_1;
+                break;
+
             case Step::wait_0:
                 if ( c == 0 /* linux */ || c == 10 /* win */ ) Notify(std::make_pair(KeyType::ret,' '));
                 else Notify(std::make_pair(KeyType::ignored,' '));
@@ -542,7 +548,7 @@ protected:
 
 private:
 
-    enum class Step { _1, _2, _3, _4, wait_0 };
+    enum class Step { _1, _2, _3, _4, _5, wait_0 };
     Step step = Step::_1;
     CommandProcessor<TelnetScreen> poll;
 };
-- 
2.43.0


From 2c40d6b94a972b6399cd6ed30f15d32cce6ece04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:59 +0000
Subject: [PATCH 08/35] fix: telnet negotiation of option 10 was answered with
 a text newline

---
 include/cli/detail/genericasioremotecli.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cli/detail/genericasioremotecli.h b/include/cli/detail/genericasioremotecli.h
index 985f0fc..81e58c8 100644
--- a/include/cli/detail/genericasioremotecli.h
+++ b/include/cli/detail/genericasioremotecli.h
@@ -405,7 +405,7 @@ private:
         std::string answer("\x0FF\x000\x000", 3);
         answer[1] = action;
         answer[2] = op;
-        this -> OutStream() << answer << std::flush;
+        Send(answer); // not through OutStream(), because it would encode op as if it were text
     }
 protected:
     virtual void Output(char c)
-- 
2.43.0


From 7ea0e2b2a3d04c653bdc95bdef43be3fe7a6ce0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:59 +0000
Subject: [PATCH 09/35] fix: telnet sessions could not exit when the server had
 no exit action

---
 include/cli/detail/genericasioremotecli.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/cli/detail/genericasioremotecli.h b/include/cli/detail/genericasioremotecli.h
index 81e58c8..0617a8e 100644
--- a/include/cli/detail/genericasioremotecli.h
+++ b/include/cli/detail/genericasioremotecli.h
@@ -457,7 +457,12 @@ public:
         CliSession(_cli, TelnetSession::OutStream(), historySize),
         poll(*this, *this)
     {
-        ExitAction([this, _exitAction](std::ostream& _out){ _exitAction(_out), Disconnect(); } );
+        ExitAction([this, _exitAction](std::ostream& _out)
+            {
+                if (_exitAction)
+                    _exitAction(_out);
+                Disconnect();
+            });
     }
 protected:
 
-- 
2.43.0


From e64ee1b6ca2ac372a7a1ea40ced9022f70f52d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:59 +0000
Subject: [PATCH 10/35] fix: the enter action of the telnet server was never
 called

---
 include/cli/detail/genericasioremotecli.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/cli/detail/genericasioremotecli.h b/include/cli/detail/genericasioremotecli.h
index 0617a8e..7eaeab6 100644
--- a/include/cli/detail/genericasioremotecli.h
+++ b/include/cli/detail/genericasioremotecli.h
@@ -586,7 +586,9 @@ public:
     }
     std::shared_ptr<Session> CreateSession(asiolib::ip::tcp::socket _socket) override
     {
-        return std::make_shared<CliTelnetSession>(scheduler, std::move(_socket), cli, exitAction, historySize);
+        auto session = std::make_shared<CliTelnetSession>(scheduler, std::move(_socket), cli, exitAction, historySize);
+        session->EnterAction(enterAction);
+        return session;
     }
 private:
     Scheduler& scheduler;
-- 
2.43.0


From 29429ab8ff2ed8f0fdb9c5a37ad8f96062746610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:59 +0000
Subject: [PATCH 11/35] fix: exception out of the scheduler when a telnet
 session exits after the peer disconnected

---
 include/cli/detail/server.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/cli/detail/server.h b/include/cli/detail/server.h
index 8013057..7770dc4 100644
--- a/include/cli/detail/server.h
+++ b/include/cli/detail/server.h
@@ -54,8 +54,10 @@ protected:
 
     virtual void Disconnect()
     {
-        socket.shutdown(asiolib::ip::tcp::socket::shutdown_both);
-        socket.close();
+        // the peer could be already disconnected, so ignore the errors
+        asiolibec::error_code ec;
+        socket.shutdown(asiolib::ip::tcp::socket::shutdown_both, ec);
+        socket.close(ec);
     }
 
     virtual void Read()
-- 
2.43.0


From 754b5b93526ad89b9709f8d0b993f904bbc16a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:59 +0000
Subject: [PATCH 12/35] fix: exit actions executed and history stored again
 when a session gets more than one exit

---
 include/cli/cli.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/cli/cli.h b/include/cli/cli.h
index 54f5ca9..1aacb10 100644
--- a/include/cli/cli.h
+++ b/include/cli/cli.h
@@ -337,6 +337,8 @@ namespace cli
 
         void Exit()
         {
+            if (exit) return; // already done
+
             exitAction(out);
             cli.ExitAction(out);
 
-- 
2.43.0


From 8a18cfd8aceba216471ff0d99d0a2c8de8e2c678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:59 +0000
Subject: [PATCH 13/35] fix: Cli::cout() no longer reached a session after
 another one on the same stream was destroyed

---
 include/cli/cli.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/cli/cli.h b/include/cli/cli.h
index 1aacb10..804e396 100644
--- a/include/cli/cli.h
+++ b/include/cli/cli.h
@@ -100,7 +100,10 @@ namespace cli
         }
         void UnRegister(std::ostream& o)
         {
-            ostreams.erase(std::remove(ostreams.begin(), ostreams.end(), &o), ostreams.end());
+            // only one registration: other sessions could use the same stream
+            auto i = std::find(ostreams.begin(), ostreams.end(), &o);
+            if (i != ostreams.end())
+                ostreams.erase(i);
         }
 
     private:
-- 
2.43.0


From cacad4607239f335694087003410331029b499fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:17 +0000
Subject: [PATCH 14/35] fix: endless recursion executing a history entry that
 executes itself

---
 include/cli/cli.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/cli/cli.h b/include/cli/cli.h
index 804e396..ebf1f01 100644
--- a/include/cli/cli.h
+++ b/include/cli/cli.h
@@ -33,6 +33,7 @@
 #include <string>
 #include <vector>
 #include <memory>
+#include <stdexcept>
 #include <functional>
 #include <algorithm>
 #include <cctype> // std::isspace
@@ -367,7 +368,11 @@ namespace cli
         {
             history.ForgetLatest();
             const auto cmd = history.At(index);
-            Feed(cmd);
+            if (std::find(replaying.begin(), replaying.end(), index) != replaying.end())
+                throw std::runtime_error("Recursive command in history");
+            replaying.push_back(index);
+            try { Feed(cmd); } catch (...) { replaying.pop_back(); throw; }
+            replaying.pop_back();
         }
 
         std::string PreviousCmd(const std::string& line)
@@ -392,6 +397,7 @@ namespace cli
         std::function< void(std::ostream&)> enterAction = []( std::ostream& ) noexcept {};
         std::function< void(std::ostream&)> exitAction = []( std::ostream& ) noexcept {};
         detail::History history;
+        std::vector<unsigned> replaying; // ids of the history commands being executed
         bool exit{ false }; // to prevent the prompt after exit command
     };
 
-- 
2.43.0


From fc3e669c75888396ea200c6b8bb420b7dc8629c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:17 +0000
Subject: [PATCH 15/35] fix: a command handler that removes its own command was
 destroyed while running

---
 include/cli/cli.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cli/cli.h b/include/cli/cli.h
index ebf1f01..fe6bfdd 100644
--- a/include/cli/cli.h
+++ b/include/cli/cli.h
@@ -521,7 +521,7 @@ namespace cli
         {
             if (!IsEnabled())
                 return false;
-            for (auto& cmd: *cmds)
+            for (const auto cmd: *cmds) // copy, to keep the command alive if its handler removes it
                 if (cmd->Exec(cmdLine, session))
                     return true;
             assert(!cmdLine.empty());
@@ -683,7 +683,7 @@ namespace cli
                 {
                     // check also for subcommands
                     std::vector<std::string > subCmdLine(cmdLine.begin()+1, cmdLine.end());
-                    for (auto& cmd: *cmds)
+                    for (const auto cmd: *cmds) // copy, to keep the command alive if its handler removes it
                         if (cmd->Exec( subCmdLine, session )) return true;
                     return (parent && parent->ExecParent(subCmdLine, session));
                 }
-- 
2.43.0


From 2b33775bc8a3e7a69a383f5888d855ce2dabad78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:17 +0000
Subject: [PATCH 16/35] fix: a signal interrupting the wait for a key stopped
 the local keyboard

---
 include/cli/detail/linuxkeyboard.h | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/cli/detail/linuxkeyboard.h b/include/cli/detail/linuxkeyboard.h
index 17b40e1..aadc1b7 100644
--- a/include/cli/detail/linuxkeyboard.h
+++ b/include/cli/detail/linuxkeyboard.h
@@ -39,6 +39,7 @@
 #include <unistd.h>
 #include <sys/select.h>
 #include <cassert>
+#include <cerrno>
 #include <condition_variable>
 #include "inputdevice.h"
 
@@ -65,11 +66,15 @@ public:
     void WaitKbHit()
     {
         fd_set rfds;
-        FD_ZERO(&rfds);
-        FD_SET(STDIN_FILENO, &rfds);
-        FD_SET(readPipe, &rfds);
-
-        while (select(readPipe + 1, &rfds, nullptr, nullptr, nullptr) == 0);
+        int ready = 0;
+        do
+        {
+            FD_ZERO(&rfds);
+            FD_SET(STDIN_FILENO, &rfds);
+            FD_SET(readPipe, &rfds);
+            ready = select(readPipe + 1, &rfds, nullptr, nullptr, nullptr);
+        }
+        while (ready == 0 || (ready < 0 && errno == EINTR));
 
         if (FD_ISSET(readPipe, &rfds)) // stop called
         {
-- 
2.43.0


From 5769cd997a77f3465cea5ecaba1b6b3938234866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:17 +0000
Subject: [PATCH 17/35] fix: the local keyboard posted NUL keys for ever at the
 end of the standard input

---
 include/cli/detail/linuxkeyboard.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/cli/detail/linuxkeyboard.h b/include/cli/detail/linuxkeyboard.h
index aadc1b7..0d03733 100644
--- a/include/cli/detail/linuxkeyboard.h
+++ b/include/cli/detail/linuxkeyboard.h
@@ -155,6 +155,11 @@ public:
                     cv.wait(lock, [this]{ return enabled; }); // release mtx, suspend thread execution until enabled becomes true
                 }
                 auto k = Get();
+                if (closed) // whatever key was being read
+                {
+                    Notify(std::make_pair(KeyType::eof,' '));
+                    return;
+                }
                 Notify(k);
             }
         }
@@ -167,8 +172,11 @@ public:
     char GetChar()
     {
         char buffer = 0;
-        auto unused = read(0, &buffer, 1);
-        static_cast<void>(unused); // silence unused warn
+        if (read(0, &buffer, 1) <= 0) // end of file or error: no more keys
+        {
+            closed = true;
+            return 4; // EOT
+        }
         return buffer;
     }
 
@@ -236,6 +244,7 @@ public:
     }
 
     bool enabled;
+    bool closed{ false }; // no more input. Used only by the servant thread
     termios oldt;
     termios newt;
     InputSource is;
-- 
2.43.0


From f182395a33b931091d348ef3d54ab0c542d986f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:52 +0000
Subject: [PATCH 18/35] fix: deadlock destroying a deactivated local keyboard

---
 include/cli/detail/linuxkeyboard.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/cli/detail/linuxkeyboard.h b/include/cli/detail/linuxkeyboard.h
index 0d03733..7f7c713 100644
--- a/include/cli/detail/linuxkeyboard.h
+++ b/include/cli/detail/linuxkeyboard.h
@@ -120,6 +120,12 @@ public:
     {
         ToStandardMode();
         is.Stop();
+        {
+            // the servant could be waiting for the activation
+            std::lock_guard<std::mutex> lock(mtx);
+            enabled = true;
+            cv.notify_one();
+        }
         servant.join();
     }
     void ActivateInput() override
-- 
2.43.0


From 177bb83df38b64dded7147622668da657dfdb19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:10 +0000
Subject: [PATCH 19/35] fix: use after free when a telnet server is destroyed
 before its event loop

---
 include/cli/detail/server.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/cli/detail/server.h b/include/cli/detail/server.h
index 7770dc4..75af44c 100644
--- a/include/cli/detail/server.h
+++ b/include/cli/detail/server.h
@@ -142,13 +142,16 @@ public:
 private:
     void Accept()
     {
-        acceptor.async_accept([this](asiolibec::error_code ec, asiolib::ip::tcp::socket socket)
+        std::weak_ptr<void> token{ alive };
+        acceptor.async_accept([this, token](asiolibec::error_code ec, asiolib::ip::tcp::socket socket)
             {
+                if (token.expired()) return; // the server has been destroyed
                 if (!ec) CreateSession(std::move(socket))->Start();
                 Accept();
             });
     }
     asiolib::ip::tcp::acceptor acceptor;
+    std::shared_ptr<void> alive{ std::make_shared<bool>(true) };
 };
 
 
-- 
2.43.0


From 62b456211240f792e4c49b8725a701aba8cee629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:10 +0000
Subject: [PATCH 20/35] fix: use after free when an async session is destroyed
 before its event loop

---
 include/cli/detail/genericcliasyncsession.h | 33 +++++++++++++--------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/include/cli/detail/genericcliasyncsession.h b/include/cli/detail/genericcliasyncsession.h
index 2712276..adf3ac9 100644
--- a/include/cli/detail/genericcliasyncsession.h
+++ b/include/cli/detail/genericcliasyncsession.h
@@ -45,13 +45,13 @@ class GenericCliAsyncSession : public CliSession
 public:
     GenericCliAsyncSession(GenericAsioScheduler<ASIOLIB>& _scheduler, Cli& _cli) :
         CliSession(_cli, std::cout, 1),
-        input(_scheduler.AsioContext(), ::dup(STDIN_FILENO))
+        input(std::make_shared<Input>(_scheduler.AsioContext(), ::dup(STDIN_FILENO)))
     {
         Read();
     }
     ~GenericCliAsyncSession() noexcept override
     {
-        try { input.close(); } catch (const std::exception&) { /* do nothing */ }
+        try { input->stream.close(); } catch (const std::exception&) { /* do nothing */ }
     }
 
 private:
@@ -60,13 +60,17 @@ private:
     {
         Prompt();
         // Read a line of input entered by the user.
+        // The operation keeps alive the stream and the buffer it works on,
+        // because it could complete after the end of this session.
+        auto in = input;
         asiolib::async_read_until(
-            input,
-            inputBuffer,
+            in->stream,
+            in->buffer,
             '\n',
-            std::bind( &GenericCliAsyncSession::NewLine, this,
-                       std::placeholders::_1,
-                       std::placeholders::_2 )
+            [this, in](const asiolibec::error_code& error, std::size_t length)
+            {
+                if (in->stream.is_open()) NewLine(error, length);
+            }
         );
     }
 
@@ -74,23 +78,28 @@ private:
     {
         if ( !error || error == asiolib::error::not_found )
         {
-            auto bufs = inputBuffer.data();
+            auto bufs = input->buffer.data();
             auto size = static_cast<long>(length);
             if ( !error ) --size; // remove \n
             std::string s(asiolib::buffers_begin( bufs ), asiolib::buffers_begin( bufs ) + size);
-            inputBuffer.consume( length );
+            input->buffer.consume( length );
 
             Feed( s );
             Read();
         }
         else
         {
-            input.close();
+            input->stream.close();
         }
     }
 
-    asiolib::streambuf inputBuffer;
-    asiolib::posix::stream_descriptor input;
+    struct Input
+    {
+        Input(typename ASIOLIB::ContextType& context, int fd) : stream(context, fd) {}
+        asiolib::streambuf buffer;
+        asiolib::posix::stream_descriptor stream;
+    };
+    std::shared_ptr<Input> input;
 };
 
 } // namespace detail
-- 
2.43.0


From 735a27fc5be52ded72f1d3e77ba7915690ad922f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:10 +0000
Subject: [PATCH 21/35] fix: the enter action was never called by the async
 sessions

---
 include/cli/detail/genericcliasyncsession.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cli/detail/genericcliasyncsession.h b/include/cli/detail/genericcliasyncsession.h
index adf3ac9..6fd36cf 100644
--- a/include/cli/detail/genericcliasyncsession.h
+++ b/include/cli/detail/genericcliasyncsession.h
@@ -47,6 +47,7 @@ public:
         CliSession(_cli, std::cout, 1),
         input(std::make_shared<Input>(_scheduler.AsioContext(), ::dup(STDIN_FILENO)))
     {
+        Enter();
         Read();
     }
     ~GenericCliAsyncSession() noexcept override
-- 
2.43.0


From e49ac44090f578c9f9a8b10c6a7859b6bdf702ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:10 +0000
Subject: [PATCH 22/35] fix: async sessions did not exit at the end of the
 input

---
 include/cli/detail/genericcliasyncsession.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cli/detail/genericcliasyncsession.h b/include/cli/detail/genericcliasyncsession.h
index 6fd36cf..acc889e 100644
--- a/include/cli/detail/genericcliasyncsession.h
+++ b/include/cli/detail/genericcliasyncsession.h
@@ -90,6 +90,7 @@ private:
         }
         else
         {
+            Exit();
             input->stream.close();
         }
     }
-- 
2.43.0


From 23ebbc8ec6a653aadba84fc6b189a6c0a09894dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:35 +0000
Subject: [PATCH 23/35] fix: keys still queued in the scheduler were delivered
 to a destroyed session

---
 include/cli/detail/inputdevice.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/cli/detail/inputdevice.h b/include/cli/detail/inputdevice.h
index 62a369f..cc7e04b 100644
--- a/include/cli/detail/inputdevice.h
+++ b/include/cli/detail/inputdevice.h
@@ -31,6 +31,7 @@
 #define CLI_DETAIL_INPUTDEVICE_H_
 
 #include <functional>
+#include <memory>
 #include <string>
 #include "../scheduler.h"
 
@@ -58,13 +59,15 @@ protected:
 
     void Notify(std::pair<KeyType,char> k)
     {
-        scheduler.Post([this,k](){ if (handler) handler(k); });
+        std::weak_ptr<void> token{ alive };
+        scheduler.Post([this,k,token](){ if (!token.expired() && handler) handler(k); });
     }
 
 private:
 
     Scheduler& scheduler;
     Handler handler;
+    std::shared_ptr<void> alive{ std::make_shared<bool>(true) }; // expires before the tasks posted by Notify
 };
 
 } // namespace detail
-- 
2.43.0


From e28eb4d85dbf7ee57eb9263d8ddcec1ae04d98b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:59 +0000
Subject: [PATCH 24/35] fix: destroying the local keyboard hung when an escape
 sequence was incomplete

---
 include/cli/detail/linuxkeyboard.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cli/detail/linuxkeyboard.h b/include/cli/detail/linuxkeyboard.h
index 7f7c713..5c0791c 100644
--- a/include/cli/detail/linuxkeyboard.h
+++ b/include/cli/detail/linuxkeyboard.h
@@ -177,6 +177,8 @@ public:
 
     char GetChar()
     {
+        is.WaitKbHit(); // also for the chars of a sequence, to be woken up by Stop()
+
         char buffer = 0;
         if (read(0, &buffer, 1) <= 0) // end of file or error: no more keys
         {
@@ -188,8 +190,6 @@ public:
 
     std::pair<KeyType,char> Get()
     {
-        is.WaitKbHit();
-
         auto ch = GetChar();
         switch(ch)
         {
-- 
2.43.0


From 3b8a90fc49bf10b0c3363a21aee29e48845749bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:20 +0000
Subject: [PATCH 25/35] fix: in telnet sessions unknown escape sequences
 swallowed the following char or typed their tail

---
 include/cli/detail/genericasioremotecli.h | 31 ++++++++++++++++-------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/include/cli/detail/genericasioremotecli.h b/include/cli/detail/genericasioremotecli.h
index 7eaeab6..7efa59b 100644
--- a/include/cli/detail/genericasioremotecli.h
+++ b/include/cli/detail/genericasioremotecli.h
@@ -523,21 +523,22 @@ protected:
                     case 70: step = Step::_1; Notify(std::make_pair(KeyType::end,' ')); break;
                     case 72: step = Step::_1; Notify(std::make_pair(KeyType::home,' ')); break;
                     case 51: step = Step::_4; break;  // maybe canc
-                    default: step = Step::_5; break;  // unknown
+                    default: UnknownSequence(c); break;
                 }
                 break;
 
             case Step::_4:
-                if ( c == 126 ) Notify(std::make_pair(KeyType::canc,' '));
-                else Notify(std::make_pair(KeyType::ignored,' '));
-
-                step = Step::_1;
-
+                if ( c == 126 )
+                {
+                    step = Step::_1;
+                    Notify(std::make_pair(KeyType::canc,' '));
+                }
+                else
+                    UnknownSequence(c);
                 break;
 
-            case Step::_5: // the last char of an unknown sequence
-                Notify(std::make_pair(KeyType::ignored,' '));
-                step = Step::_1;
+            case Step::_5: // got the beginning of an unknown sequence
+                UnknownSequence(c);
                 break;
 
             case Step::wait_0:
@@ -553,6 +554,18 @@ protected:
 
 private:
 
+    // skip an unknown sequence up to its final char, that is the first one out of the range 32-63
+    void UnknownSequence(char c)
+    {
+        if (c >= 32 && c < 64)
+            step = Step::_5;
+        else
+        {
+            step = Step::_1;
+            Notify(std::make_pair(KeyType::ignored,' '));
+        }
+    }
+
     enum class Step { _1, _2, _3, _4, _5, wait_0 };
     Step step = Step::_1;
     CommandProcessor<TelnetScreen> poll;
-- 
2.43.0


From 7c5d8fa0805e4dde8f24faf3669b2eb1ddbcc6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:20 +0000
Subject: [PATCH 26/35] fix: in local sessions unknown escape sequences typed
 their tail

---
 include/cli/detail/linuxkeyboard.h | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/cli/detail/linuxkeyboard.h b/include/cli/detail/linuxkeyboard.h
index 5c0791c..13032f5 100644
--- a/include/cli/detail/linuxkeyboard.h
+++ b/include/cli/detail/linuxkeyboard.h
@@ -188,6 +188,13 @@ public:
         return buffer;
     }
 
+    // skip an unknown sequence up to its final char, that is the first one out of the range 32-63
+    void SkipSequence(char ch)
+    {
+        while (ch >= 32 && ch < 64)
+            ch = GetChar();
+    }
+
     std::pair<KeyType,char> Get()
     {
         auto ch = GetChar();
@@ -212,15 +219,17 @@ public:
                         case 51:
                             ch = GetChar();
                             if ( ch == 126 ) return std::make_pair(KeyType::canc,' ');
-                            else return std::make_pair(KeyType::ignored,' ');
-                            break;
+                            SkipSequence(ch);
+                            return std::make_pair(KeyType::ignored,' ');
                         case 65: return std::make_pair(KeyType::up,' ');
                         case 66: return std::make_pair(KeyType::down,' ');
                         case 68: return std::make_pair(KeyType::left,' ');
                         case 67: return std::make_pair(KeyType::right,' ');
                         case 70: return std::make_pair(KeyType::end,' ');
                         case 72: return std::make_pair(KeyType::home,' ');
-                        default: return std::make_pair(KeyType::ignored,' ');
+                        default:
+                            SkipSequence(ch);
+                            return std::make_pair(KeyType::ignored,' ');
                     }
                 }
                 break;
-- 
2.43.0


From 3c5542dca74bf2dd0812338f0fda10c90d9980ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:49 +0000
Subject: [PATCH 27/35] fix: a local keyboard destroyed after the end of the
 input leaked a pipe descriptor

---
 include/cli/detail/linuxkeyboard.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/cli/detail/linuxkeyboard.h b/include/cli/detail/linuxkeyboard.h
index 13032f5..116e2fd 100644
--- a/include/cli/detail/linuxkeyboard.h
+++ b/include/cli/detail/linuxkeyboard.h
@@ -78,7 +78,6 @@ public:
 
         if (FD_ISSET(readPipe, &rfds)) // stop called
         {
-            close(readPipe);
             throw std::runtime_error("InputSource stop");
         }
 
@@ -99,6 +98,15 @@ public:
         shutdownPipe = -1;
     }
 
+    ~InputSource()
+    {
+        close(readPipe); // here, because the servant could have ended without reaching WaitKbHit()
+    }
+
+    // non copyable
+    InputSource(const InputSource&) = delete;
+    InputSource& operator=(const InputSource&) = delete;
+
 private:
     int shutdownPipe;
     int readPipe;
-- 
2.43.0


From 90542fa628e1712b93ccac634ddd481ce47abeac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:49 +0000
Subject: [PATCH 28/35] fix: terminal settings lost when the input is activated
 or deactivated twice

---
 include/cli/detail/linuxkeyboard.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/cli/detail/linuxkeyboard.h b/include/cli/detail/linuxkeyboard.h
index 116e2fd..7d93510 100644
--- a/include/cli/detail/linuxkeyboard.h
+++ b/include/cli/detail/linuxkeyboard.h
@@ -252,6 +252,9 @@ public:
 
     void ToManualMode()
     {
+        if (manualMode) // otherwise oldt would be overwritten
+            return;
+
         constexpr tcflag_t ICANON_FLAG = ICANON;
         constexpr tcflag_t ECHO_FLAG = ECHO;
 
@@ -259,14 +262,20 @@ public:
         newt = oldt;
         newt.c_lflag &= ~( ICANON_FLAG | ECHO_FLAG );
         tcsetattr(STDIN_FILENO, TCSANOW, &newt);
+        manualMode = true;
     }
 
     void ToStandardMode()
     {
+        if (!manualMode) // the settings could have been changed by others
+            return;
+
         tcsetattr(STDIN_FILENO, TCSANOW, &oldt);
+        manualMode = false;
     }
 
     bool enabled;
+    bool manualMode{ false }; // the terminal is in manual mode and oldt contains its previous settings
     bool closed{ false }; // no more input. Used only by the servant thread
     termios oldt;
     termios newt;
-- 
2.43.0


From 68968eeb029ad114ce60dbc38af977b1ae6b5baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:52 +0000
Subject: [PATCH 29/35] fix: an exit action that exits recursed for ever and
 ran the exit actions again

---
 include/cli/cli.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/cli/cli.h b/include/cli/cli.h
index fe6bfdd..b4c260d 100644
--- a/include/cli/cli.h
+++ b/include/cli/cli.h
@@ -342,14 +342,13 @@ namespace cli
         void Exit()
         {
             if (exit) return; // already done
+            exit = true; // prevent the prompt to be shown, and other exits (the actions could call Exit())
 
             exitAction(out);
             cli.ExitAction(out);
 
             auto cmds = history.GetCommands();
             cli.StoreCommands(cmds);
-
-            exit = true; // prevent the prompt to be shown
         }
 
         void EnterAction(const std::function<void(std::ostream&)>& action)
-- 
2.43.0


From dae244b947102b3a24c976ce62673ad72e589129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:04 +0000
Subject: [PATCH 30/35] fix: single chars written to the global output stream
 depended on the state and the width of the stream of each session

---
 include/cli/cli.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cli/cli.h b/include/cli/cli.h
index b4c260d..5b6ef42 100644
--- a/include/cli/cli.h
+++ b/include/cli/cli.h
@@ -91,7 +91,7 @@ namespace cli
         int overflow(int c) override
         {
             for (auto os: ostreams)
-                *os << static_cast<char>(c);
+                os->rdbuf()->sputc(static_cast<char>(c));
             return c;
         }            
 
-- 
2.43.0


From f9fbc037260c073c04d6f106e646b0a932b61256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:04 +0000
Subject: [PATCH 31/35] fix: the global output stream crashed when a session
 had a stream without buffer

---
 include/cli/cli.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/cli/cli.h b/include/cli/cli.h
index 5b6ef42..9bedc82 100644
--- a/include/cli/cli.h
+++ b/include/cli/cli.h
@@ -85,13 +85,15 @@ namespace cli
         std::streamsize xsputn(const char* s, std::streamsize n) override
         {
             for (auto os: ostreams)
-                os->rdbuf()->sputn(s, n);
+                if (os->rdbuf()) // a stream could have no buffer
+                    os->rdbuf()->sputn(s, n);
             return n;
         }
         int overflow(int c) override
         {
             for (auto os: ostreams)
-                os->rdbuf()->sputc(static_cast<char>(c));
+                if (os->rdbuf())
+                    os->rdbuf()->sputc(static_cast<char>(c));
             return c;
         }            
 
-- 
2.43.0


From 426d1f9cfc10e2f35ac582d84b475c11f99e0b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:30 +0000
Subject: [PATCH 32/35] fix: a file session with an exit action of the user
 never ended

---
 include/cli/cli.h            |  4 ++++
 include/cli/clifilesession.h | 10 +---------
 2 files changed, 5 insertions(+), 9 deletions(-)

diff --git a/include/cli/cli.h b/include/cli/cli.h
index 9bedc82..5c4dd26 100644
--- a/include/cli/cli.h
+++ b/include/cli/cli.h
@@ -388,6 +388,10 @@ namespace cli
 
         std::vector<std::string> GetCompletions(std::string currentLine) const;
 
+    protected:
+
+        bool Exited() const noexcept { return exit; }
+
     private:
 
         Cli& cli;
diff --git a/include/cli/clifilesession.h b/include/cli/clifilesession.h
index 561e6aa..0addc4d 100644
--- a/include/cli/clifilesession.h
+++ b/include/cli/clifilesession.h
@@ -44,23 +44,16 @@ public:
     /// @throw std::invalid_argument if @c _in or @c out are invalid streams
     explicit CliFileSession(Cli& _cli, std::istream& _in=std::cin, std::ostream& _out=std::cout) :
         CliSession(_cli, _out, 1),
-        exit(false),
         in(_in)
     {
         if (!_in.good()) throw std::invalid_argument("istream invalid");
         if (!_out.good()) throw std::invalid_argument("ostream invalid");
-        ExitAction(
-            [this](std::ostream&) noexcept
-            {
-                exit = true;
-            }
-        );
     }
     void Start()
     {
         Enter();
 
-        while(!exit)
+        while(!Exited())
         {
             Prompt();
             std::string line;
@@ -72,7 +65,6 @@ public:
     }
 
 private:
-    bool exit;
     std::istream& in;
 };
 
-- 
2.43.0


From 8261697c6947dc9b554f4628288e84255389c264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:30 +0000
Subject: [PATCH 33/35] fix: an empty exit action of a session threw at the
 exit

---
 include/cli/cli.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cli/cli.h b/include/cli/cli.h
index 5c4dd26..510e000 100644
--- a/include/cli/cli.h
+++ b/include/cli/cli.h
@@ -346,7 +346,8 @@ namespace cli
             if (exit) return; // already done
             exit = true; // prevent the prompt to be shown, and other exits (the actions could call Exit())
 
-            exitAction(out);
+            if (exitAction)
+                exitAction(out);
             cli.ExitAction(out);
 
             auto cmds = history.GetCommands();
-- 
2.43.0


From 683a25de3b6a3c03c7f3fa99e9a01a80f5aaaec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:31 +0000
Subject: [PATCH 34/35] fix: the local keyboard used descriptors select()
 cannot wait for, or none at all

With 1024 or more open files FD_SET wrote out of the fd_set; when the pipe could not
be created the descriptors were uninitialized. The construction fails, now.
---
 include/cli/detail/linuxkeyboard.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/cli/detail/linuxkeyboard.h b/include/cli/detail/linuxkeyboard.h
index 7d93510..fe18076 100644
--- a/include/cli/detail/linuxkeyboard.h
+++ b/include/cli/detail/linuxkeyboard.h
@@ -56,10 +56,15 @@ public:
     InputSource()
     {
         int pipes[2];
-        if (pipe(pipes) == 0)
+        if (pipe(pipes) != 0)
+            throw std::runtime_error("InputSource: cannot create the pipe");
+        shutdownPipe = pipes[1]; // we store the write end
+        readPipe = pipes[0]; // ... and the read end
+        if (readPipe >= FD_SETSIZE) // select can't wait for it
         {
-            shutdownPipe = pipes[1]; // we store the write end
-            readPipe = pipes[0]; // ... and the read end
+            close(shutdownPipe);
+            close(readPipe);
+            throw std::runtime_error("InputSource: too many open files");
         }
     }
 
-- 
2.43.0


From 4b6cad828c809390c25f34657cab2dd0cb563315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:27 +0000
Subject: [PATCH 35/35] fix: what the global exit action writes never reached a
 telnet client

The connection was closed by the exit action of the session, that runs before the
global one. It's closed after both, now.
---
 include/cli/cli.h                         | 5 +++++
 include/cli/detail/genericasioremotecli.h | 9 +++------
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/cli/cli.h b/include/cli/cli.h
index 510e000..6a22cf2 100644
--- a/include/cli/cli.h
+++ b/include/cli/cli.h
@@ -352,6 +352,8 @@ namespace cli
 
             auto cmds = history.GetCommands();
             cli.StoreCommands(cmds);
+
+            OnExit();
         }
 
         void EnterAction(const std::function<void(std::ostream&)>& action)
@@ -393,6 +395,9 @@ namespace cli
 
         bool Exited() const noexcept { return exit; }
 
+        // called once at the exit, after the actions of the user
+        virtual void OnExit() {}
+
     private:
 
         Cli& cli;
diff --git a/include/cli/detail/genericasioremotecli.h b/include/cli/detail/genericasioremotecli.h
index 7efa59b..5e09c5e 100644
--- a/include/cli/detail/genericasioremotecli.h
+++ b/include/cli/detail/genericasioremotecli.h
@@ -457,12 +457,7 @@ public:
         CliSession(_cli, TelnetSession::OutStream(), historySize),
         poll(*this, *this)
     {
-        ExitAction([this, _exitAction](std::ostream& _out)
-            {
-                if (_exitAction)
-                    _exitAction(_out);
-                Disconnect();
-            });
+        ExitAction(_exitAction);
     }
 protected:
 
@@ -473,6 +468,8 @@ protected:
         Prompt();
     }
 
+    void OnExit() override { Disconnect(); } // after the global exit action, that can write to the client
+
     void Output(char c) override // NB: C++ does not specify wether char is signed or unsigned
     {
         switch(step)
-- 
2.43.0

