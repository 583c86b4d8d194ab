From 0ed3c46be87749910e2bb229eec9d8aca08b67de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:12 +0000
Subject: [PATCH 01/26] fix: keep the port out of the domain field when a
 domain is an IPv4 address

---
 validators-derive/src/validator_handlers/domain/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/validators-derive/src/validator_handlers/domain/mod.rs b/validators-derive/src/validator_handlers/domain/mod.rs
index 54bf8aa..f4fbd55 100644
--- a/validators-derive/src/validator_handlers/domain/mod.rs
+++ b/validators-derive/src/validator_handlers/domain/mod.rs
@@ -636,7 +636,7 @@ impl ValidatorHandler for DomainHandler {
 
                                 #check_local
 
-                                (s.into_owned(), port, true, is_local)
+                                (validators_prelude::String::from(domain_str), port, true, is_local)
                             }
                         }
                     };
-- 
2.43.0


From e3f165083e2ba0e9dc497cfaa212672411624254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:51 +0000
Subject: [PATCH 02/26] fix: reject a plus sign in front of a port number

---
 validators-derive/src/validator_handlers/domain/mod.rs | 4 ++--
 validators-derive/src/validator_handlers/host/mod.rs   | 8 ++++----
 validators-derive/src/validator_handlers/ip/mod.rs     | 8 ++++----
 validators-derive/src/validator_handlers/ipv4/mod.rs   | 4 ++--
 validators-derive/src/validator_handlers/ipv6/mod.rs   | 4 ++--
 5 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/validators-derive/src/validator_handlers/domain/mod.rs b/validators-derive/src/validator_handlers/domain/mod.rs
index f4fbd55..cd4fc46 100644
--- a/validators-derive/src/validator_handlers/domain/mod.rs
+++ b/validators-derive/src/validator_handlers/domain/mod.rs
@@ -553,8 +553,8 @@ impl ValidatorHandler for DomainHandler {
                     match port_str {
                         Some(port_str) => {
                             match port_str.parse::<u16>() {
-                                Ok(port) => Some(port),
-                                Err(_) => return Err(#error_path::Invalid),
+                                Ok(port) if !port_str.starts_with('+') => Some(port),
+                                _ => return Err(#error_path::Invalid),
                             }
                         }
                         None => None,
diff --git a/validators-derive/src/validator_handlers/host/mod.rs b/validators-derive/src/validator_handlers/host/mod.rs
index 532471e..83d7f73 100644
--- a/validators-derive/src/validator_handlers/host/mod.rs
+++ b/validators-derive/src/validator_handlers/host/mod.rs
@@ -325,14 +325,14 @@ impl ValidatorHandler for HostHandler {
                                         let port_str = &s[(colon_index + 1)..];
 
                                         match port_str.parse::<u16>() {
-                                            Ok(port) => {
+                                            Ok(port) if !port_str.starts_with('+') => {
                                                 let is_local = #handle_local_ipv6;
 
                                                 #check_local
 
                                                 (validators_prelude::Host::IPv6(ip), Some(port), is_local)
                                             }
-                                            Err(_) => return Err(#error_path::Invalid),
+                                            _ => return Err(#error_path::Invalid),
                                         }
                                     }
                                     Err(_) => return Err(#error_path::Invalid),
@@ -422,8 +422,8 @@ impl ValidatorHandler for HostHandler {
                     match port_str {
                         Some(port_str) => {
                             match port_str.parse::<u16>() {
-                                Ok(port) => Some(port),
-                                Err(_) => return Err(#error_path::Invalid),
+                                Ok(port) if !port_str.starts_with('+') => Some(port),
+                                _ => return Err(#error_path::Invalid),
                             }
                         }
                         None => None,
diff --git a/validators-derive/src/validator_handlers/ip/mod.rs b/validators-derive/src/validator_handlers/ip/mod.rs
index 8afd41f..682f59d 100644
--- a/validators-derive/src/validator_handlers/ip/mod.rs
+++ b/validators-derive/src/validator_handlers/ip/mod.rs
@@ -197,14 +197,14 @@ impl ValidatorHandler for IpHandler {
                                         let port_str = &s[(colon_index + 1)..];
 
                                         match port_str.parse::<u16>() {
-                                            Ok(port) => {
+                                            Ok(port) if !port_str.starts_with('+') => {
                                                 let is_local = #handle_local_ipv6;
 
                                                 #check_local
 
                                                 (::std::net::IpAddr::V6(ip), Some(port), is_local)
                                             }
-                                            Err(_) => return Err(#error_path::Invalid),
+                                            _ => return Err(#error_path::Invalid),
                                         }
                                     }
                                     Err(_) => return Err(#error_path::Invalid),
@@ -263,14 +263,14 @@ impl ValidatorHandler for IpHandler {
                                     &s[(colon_index + 1)..];
 
                                 match port_str.parse::<u16>() {
-                                    Ok(port) => {
+                                    Ok(port) if !port_str.starts_with('+') => {
                                         let is_local = #handle_local_ipv4;
 
                                         #check_local
 
                                         (::std::net::IpAddr::V4(ip), Some(port), is_local)
                                     }
-                                    Err(_) => return Err(#error_path::Invalid),
+                                    _ => return Err(#error_path::Invalid),
                                 }
                             }
                             Err(_) => return Err(#error_path::Invalid),
diff --git a/validators-derive/src/validator_handlers/ipv4/mod.rs b/validators-derive/src/validator_handlers/ipv4/mod.rs
index d034e21..73b14dc 100644
--- a/validators-derive/src/validator_handlers/ipv4/mod.rs
+++ b/validators-derive/src/validator_handlers/ipv4/mod.rs
@@ -177,14 +177,14 @@ impl ValidatorHandler for Ipv4Handler {
                                     &s[(colon_index + 1)..];
 
                                 match port_str.parse::<u16>() {
-                                    Ok(port) => {
+                                    Ok(port) if !port_str.starts_with('+') => {
                                         let is_local = #handle_local_ipv4;
 
                                         #check_local
 
                                         (ip, Some(port), is_local)
                                     }
-                                    Err(_) => return Err(#error_path::Invalid),
+                                    _ => return Err(#error_path::Invalid),
                                 }
                             }
                             Err(_) => return Err(#error_path::Invalid),
diff --git a/validators-derive/src/validator_handlers/ipv6/mod.rs b/validators-derive/src/validator_handlers/ipv6/mod.rs
index aeeef07..e012a45 100644
--- a/validators-derive/src/validator_handlers/ipv6/mod.rs
+++ b/validators-derive/src/validator_handlers/ipv6/mod.rs
@@ -176,14 +176,14 @@ impl ValidatorHandler for Ipv6Handler {
                                         let port_str = &s[(colon_index + 1)..];
 
                                         match port_str.parse::<u16>() {
-                                            Ok(port) => {
+                                            Ok(port) if !port_str.starts_with('+') => {
                                                 let is_local = #handle_local_ipv6;
 
                                                 #check_local
 
                                                 (ip, Some(port), is_local)
                                             }
-                                            Err(_) => return Err(#error_path::Invalid),
+                                            _ => return Err(#error_path::Invalid),
                                         }
                                     }
                                     Err(_) => return Err(#error_path::Invalid),
-- 
2.43.0


From 7c0866413edc3f7305024a841e69ec3fcb5d9bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:23 +0000
Subject: [PATCH 03/26] fix: classify hosts and domains by their
 IDNA-normalized form

---
 .../src/validator_handlers/domain/mod.rs      | 41 +++++++++----------
 .../src/validator_handlers/host/mod.rs        | 33 +++++++--------
 2 files changed, 37 insertions(+), 37 deletions(-)

diff --git a/validators-derive/src/validator_handlers/domain/mod.rs b/validators-derive/src/validator_handlers/domain/mod.rs
index cd4fc46..12abe57 100644
--- a/validators-derive/src/validator_handlers/domain/mod.rs
+++ b/validators-derive/src/validator_handlers/domain/mod.rs
@@ -636,7 +636,7 @@ impl ValidatorHandler for DomainHandler {
 
                                 #check_local
 
-                                (validators_prelude::String::from(domain_str), port, true, is_local)
+                                (ascii_domain, port, true, is_local)
                             }
                         }
                     };
@@ -679,34 +679,33 @@ impl ValidatorHandler for DomainHandler {
                         };
 
                         quote! {
-                            match validators_prelude::idna::Config::default()
-                                .use_std3_ascii_rules(true)
-                                .verify_dns_length(true)
-                                .check_hyphens(true)
-                                .to_ascii(domain_str)
-                            {
-                                Ok(ascii_domain) => {
-                                    let port = #handle_port;
+                            let port = #handle_port;
 
-                                    let is_local = #handle_local_domain;
+                            let is_local = #handle_local_domain;
 
-                                    #check_at_least_two_labels
+                            #check_at_least_two_labels
 
-                                    #check_local
+                            #check_local
 
-                                    (ascii_domain, port, false, is_local)
-                                }
-                                Err(_) => return Err(#error_path::Invalid),
-                            }
+                            (ascii_domain, port, false, is_local)
                         }
                     };
 
                     quote! {
-                        match validators_prelude::parse_ipv4_allow_an_ended_dot(domain_str) {
-                            #handle_ipv4
-                            Err(_) => {
-                                #handle_none_ipv4
-                            }
+                        // IDNA can map non-ASCII characters to digits and dots, so the IPv4 has to be recognized afterwards
+                        match validators_prelude::idna::Config::default()
+                            .use_std3_ascii_rules(true)
+                            .verify_dns_length(true)
+                            .check_hyphens(true)
+                            .to_ascii(domain_str)
+                        {
+                            Ok(ascii_domain) => match validators_prelude::parse_ipv4_allow_an_ended_dot(&ascii_domain) {
+                                #handle_ipv4
+                                Err(_) => {
+                                    #handle_none_ipv4
+                                }
+                            },
+                            Err(_) => return Err(#error_path::Invalid),
                         }
                     }
                 }
diff --git a/validators-derive/src/validator_handlers/host/mod.rs b/validators-derive/src/validator_handlers/host/mod.rs
index 83d7f73..cedf4f5 100644
--- a/validators-derive/src/validator_handlers/host/mod.rs
+++ b/validators-derive/src/validator_handlers/host/mod.rs
@@ -463,7 +463,7 @@ impl ValidatorHandler for HostHandler {
                 }
             };
 
-            let handle_none_ipv4 = {
+            let handle_ipv4_or_domain = {
                 let check_at_least_two_labels = {
                     match type_attribute.at_least_two_labels {
                         TriAllow::Allow => quote! {},
@@ -504,15 +504,25 @@ impl ValidatorHandler for HostHandler {
                         .to_ascii(domain_str)
                     {
                         Ok(ascii_domain) => {
-                            let port = #handle_port;
+                            // IDNA can map non-ASCII characters to digits and dots
+                            if ascii_domain.ends_with('.') {
+                                return Err(#error_path::Invalid);
+                            }
+
+                            match ::std::net::Ipv4Addr::from_str(&ascii_domain) {
+                                #handle_ipv4
+                                Err(_) => {
+                                    let port = #handle_port;
 
-                            let is_local = #handle_local_domain;
+                                    let is_local = #handle_local_domain;
 
-                            #check_at_least_two_labels
+                                    #check_at_least_two_labels
 
-                            #check_local
+                                    #check_local
 
-                            (validators_prelude::Host::Domain(ascii_domain), port, is_local)
+                                    (validators_prelude::Host::Domain(ascii_domain), port, is_local)
+                                }
+                            }
                         }
                         Err(_) => return Err(#error_path::Invalid),
                     }
@@ -543,16 +553,7 @@ impl ValidatorHandler for HostHandler {
                                         }
                                     };
 
-                                    if domain_str.ends_with('.') {
-                                        return Err(#error_path::Invalid);
-                                    }
-
-                                    match ::std::net::Ipv4Addr::from_str(domain_str) {
-                                        #handle_ipv4
-                                        Err(_) => {
-                                            #handle_none_ipv4
-                                        }
-                                    }
+                                    #handle_ipv4_or_domain
                                 }
                             }
                         })
-- 
2.43.0


From 182626c9ed090ba1d17e8280d1514ce341467e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:42 +0000
Subject: [PATCH 04/26] fix: print the separator of a MAC address or a UUID as
 a character

---
 validators-derive/src/validator_handlers/mac_address/mod.rs | 4 ++--
 validators-derive/src/validator_handlers/uuid/mod.rs        | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/validators-derive/src/validator_handlers/mac_address/mod.rs b/validators-derive/src/validator_handlers/mac_address/mod.rs
index 1d9bd78..a79d2d5 100644
--- a/validators-derive/src/validator_handlers/mac_address/mod.rs
+++ b/validators-derive/src/validator_handlers/mac_address/mod.rs
@@ -291,7 +291,7 @@ impl ValidatorHandler for MacAddressHandler {
 
                                         validators_prelude::format!(
                                             "{:02X}{separator}{:02X}{separator}{:02X}{separator}{:02X}{separator}{:02X}{separator}{:02X}",
-                                            bytes[5], bytes[4], bytes[3], bytes[2], bytes[1], bytes[0], separator = #separator
+                                            bytes[5], bytes[4], bytes[3], bytes[2], bytes[1], bytes[0], separator = char::from(#separator)
                                         )
                                     }
                                 }
@@ -315,7 +315,7 @@ impl ValidatorHandler for MacAddressHandler {
 
                                     validators_prelude::format!(
                                         "{:02x}{separator}{:02x}{separator}{:02x}{separator}{:02x}{separator}{:02x}{separator}{:02x}",
-                                        bytes[5], bytes[4], bytes[3], bytes[2], bytes[1], bytes[0], separator = #separator
+                                        bytes[5], bytes[4], bytes[3], bytes[2], bytes[1], bytes[0], separator = char::from(#separator)
                                     )
                                 }
                             }
diff --git a/validators-derive/src/validator_handlers/uuid/mod.rs b/validators-derive/src/validator_handlers/uuid/mod.rs
index 28432f8..2390cd7 100644
--- a/validators-derive/src/validator_handlers/uuid/mod.rs
+++ b/validators-derive/src/validator_handlers/uuid/mod.rs
@@ -295,7 +295,7 @@ impl ValidatorHandler for UuidHandler {
                                             bytes[2],
                                             bytes[1],
                                             bytes[0],
-                                            separator = #separator
+                                            separator = char::from(#separator)
                                         )
                                     }
                                 }
@@ -335,7 +335,7 @@ impl ValidatorHandler for UuidHandler {
                                         bytes[2],
                                         bytes[1],
                                         bytes[0],
-                                        separator = #separator
+                                        separator = char::from(#separator)
                                     )
                                 }
                             }
-- 
2.43.0


From bffcec64576155554e41d10f119749744a1f8f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:59 +0000
Subject: [PATCH 05/26] fix: return an error for a MAC address with too many
 separators instead of panicking

---
 validators-derive/src/validator_handlers/mac_address/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/validators-derive/src/validator_handlers/mac_address/mod.rs b/validators-derive/src/validator_handlers/mac_address/mod.rs
index a79d2d5..6cea84c 100644
--- a/validators-derive/src/validator_handlers/mac_address/mod.rs
+++ b/validators-derive/src/validator_handlers/mac_address/mod.rs
@@ -80,6 +80,11 @@ impl ValidatorHandler for MacAddressHandler {
                                 no_colon_counter += 1;
                             }
 
+                            if 14 - no_colon_counter >= length {
+                                // has too many separators
+                                return Err(#error_path::Invalid);
+                            }
+
                             let fifth = &bytes[(12 - no_colon_counter)..(14 - no_colon_counter)];
 
                             if bytes[14 - no_colon_counter] != #separator {
-- 
2.43.0


From 3382d21cc03200a950d1e9c8bbf67686ce1782ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:48 +0000
Subject: [PATCH 06/26] fix: reject leading forbidden control characters in
 lines and texts with a trimmed minimum length

---
 .../src/validator_handlers/line/mod.rs        | 96 +++++++++----------
 .../src/validator_handlers/text/mod.rs        | 96 +++++++++----------
 2 files changed, 96 insertions(+), 96 deletions(-)

diff --git a/validators-derive/src/validator_handlers/line/mod.rs b/validators-derive/src/validator_handlers/line/mod.rs
index 962aafd..2954f39 100644
--- a/validators-derive/src/validator_handlers/line/mod.rs
+++ b/validators-derive/src/validator_handlers/line/mod.rs
@@ -103,14 +103,14 @@ impl ValidatorHandler for LineHandler {
                                                 return Err(#error_path::TooLong);
                                             }
 
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = len;
                                                 let mut temp_counter = 0;
 
@@ -176,14 +176,14 @@ impl ValidatorHandler for LineHandler {
                                         while let Some(c) = chars.next() {
                                             counter += 1;
 
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = 1;
                                                 let mut temp_counter = 0;
 
@@ -292,14 +292,14 @@ impl ValidatorHandler for LineHandler {
                                                 return Err(#error_path::TooLong);
                                             }
 
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = len;
                                                 let mut temp_counter = 0;
 
@@ -359,14 +359,14 @@ impl ValidatorHandler for LineHandler {
                                         while let Some(c) = chars.next() {
                                             counter += 1;
 
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = 1;
                                                 let mut temp_counter = 0;
 
@@ -473,14 +473,14 @@ impl ValidatorHandler for LineHandler {
 
                                             counter += len;
 
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = len;
                                                 let mut temp_counter = 0;
 
@@ -522,14 +522,14 @@ impl ValidatorHandler for LineHandler {
                                         while let Some(c) = chars.next() {
                                             counter += 1;
 
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = 1;
                                                 let mut temp_counter = 0;
 
@@ -621,14 +621,14 @@ impl ValidatorHandler for LineHandler {
                                         let mut chars = s.chars();
 
                                         while let Some(c) = chars.next() {
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = c.len_utf8();
                                                 let mut temp_counter = 0;
 
@@ -663,14 +663,14 @@ impl ValidatorHandler for LineHandler {
                                         let mut chars = s.chars();
 
                                         while let Some(c) = chars.next() {
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = 1;
                                                 let mut temp_counter = 0;
 
diff --git a/validators-derive/src/validator_handlers/text/mod.rs b/validators-derive/src/validator_handlers/text/mod.rs
index 0f230db..9f9eb45 100644
--- a/validators-derive/src/validator_handlers/text/mod.rs
+++ b/validators-derive/src/validator_handlers/text/mod.rs
@@ -103,14 +103,14 @@ impl ValidatorHandler for TextHandler {
                                                 return Err(#error_path::TooLong);
                                             }
 
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = len;
                                                 let mut temp_counter = 0;
 
@@ -176,14 +176,14 @@ impl ValidatorHandler for TextHandler {
                                         while let Some(c) = chars.next() {
                                             counter += 1;
 
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = 1;
                                                 let mut temp_counter = 0;
 
@@ -292,14 +292,14 @@ impl ValidatorHandler for TextHandler {
                                                 return Err(#error_path::TooLong);
                                             }
 
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = len;
                                                 let mut temp_counter = 0;
 
@@ -359,14 +359,14 @@ impl ValidatorHandler for TextHandler {
                                         while let Some(c) = chars.next() {
                                             counter += 1;
 
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = 1;
                                                 let mut temp_counter = 0;
 
@@ -473,14 +473,14 @@ impl ValidatorHandler for TextHandler {
 
                                             counter += len;
 
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = len;
                                                 let mut temp_counter = 0;
 
@@ -522,14 +522,14 @@ impl ValidatorHandler for TextHandler {
                                         while let Some(c) = chars.next() {
                                             counter += 1;
 
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = 1;
                                                 let mut temp_counter = 0;
 
@@ -621,14 +621,14 @@ impl ValidatorHandler for TextHandler {
                                         let mut chars = s.chars();
 
                                         while let Some(c) = chars.next() {
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = c.len_utf8();
                                                 let mut temp_counter = 0;
 
@@ -663,14 +663,14 @@ impl ValidatorHandler for TextHandler {
                                         let mut chars = s.chars();
 
                                         while let Some(c) = chars.next() {
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = 1;
                                                 let mut temp_counter = 0;
 
-- 
2.43.0


From e15a6bbadfd325ac12884fe7affadf5d1cee8c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:09 +0000
Subject: [PATCH 07/26] fix: report lines and texts that are only too long as
 too long

---
 .../src/validator_handlers/line/mod.rs        | 20 ++++++++-----------
 .../src/validator_handlers/text/mod.rs        | 20 ++++++++-----------
 2 files changed, 16 insertions(+), 24 deletions(-)

diff --git a/validators-derive/src/validator_handlers/line/mod.rs b/validators-derive/src/validator_handlers/line/mod.rs
index 2954f39..aaaa627 100644
--- a/validators-derive/src/validator_handlers/line/mod.rs
+++ b/validators-derive/src/validator_handlers/line/mod.rs
@@ -205,12 +205,10 @@ impl ValidatorHandler for LineHandler {
                                                     }
                                                 }
 
-                                                if trimmed_counter >= #trimmed_min && counter >= #min {
-                                                    if counter <= #max {
-                                                        return Ok(());
-                                                    } else {
-                                                        return Err(#error_path::TooLong);
-                                                    }
+                                                if counter > #max {
+                                                    return Err(#error_path::TooLong);
+                                                } else if trimmed_counter >= #trimmed_min && counter >= #min {
+                                                    return Ok(());
                                                 } else {
                                                     return Err(#error_path::TooShort);
                                                 }
@@ -388,12 +386,10 @@ impl ValidatorHandler for LineHandler {
                                                     }
                                                 }
 
-                                                if trimmed_counter >= #trimmed_min {
-                                                    if counter <= #max {
-                                                        return Ok(());
-                                                    } else {
-                                                        return Err(#error_path::TooLong);
-                                                    }
+                                                if counter > #max {
+                                                    return Err(#error_path::TooLong);
+                                                } else if trimmed_counter >= #trimmed_min {
+                                                    return Ok(());
                                                 } else {
                                                     return Err(#error_path::TooShort);
                                                 }
diff --git a/validators-derive/src/validator_handlers/text/mod.rs b/validators-derive/src/validator_handlers/text/mod.rs
index 9f9eb45..6345cf4 100644
--- a/validators-derive/src/validator_handlers/text/mod.rs
+++ b/validators-derive/src/validator_handlers/text/mod.rs
@@ -205,12 +205,10 @@ impl ValidatorHandler for TextHandler {
                                                     }
                                                 }
 
-                                                if trimmed_counter >= #trimmed_min && counter >= #min {
-                                                    if counter <= #max {
-                                                        return Ok(());
-                                                    } else {
-                                                        return Err(#error_path::TooLong);
-                                                    }
+                                                if counter > #max {
+                                                    return Err(#error_path::TooLong);
+                                                } else if trimmed_counter >= #trimmed_min && counter >= #min {
+                                                    return Ok(());
                                                 } else {
                                                     return Err(#error_path::TooShort);
                                                 }
@@ -388,12 +386,10 @@ impl ValidatorHandler for TextHandler {
                                                     }
                                                 }
 
-                                                if trimmed_counter >= #trimmed_min {
-                                                    if counter <= #max {
-                                                        return Ok(());
-                                                    } else {
-                                                        return Err(#error_path::TooLong);
-                                                    }
+                                                if counter > #max {
+                                                    return Err(#error_path::TooLong);
+                                                } else if trimmed_counter >= #trimmed_min {
+                                                    return Ok(());
                                                 } else {
                                                     return Err(#error_path::TooShort);
                                                 }
-- 
2.43.0


From e92032ab02b22f05066b3c03ae70f71d41a8ebcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:55 +0000
Subject: [PATCH 08/26] fix: compile length validators whose minimum equals
 their maximum

---
 validators-derive/src/validator_handlers/length/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/validators-derive/src/validator_handlers/length/mod.rs b/validators-derive/src/validator_handlers/length/mod.rs
index 48bdb82..ab5a66a 100644
--- a/validators-derive/src/validator_handlers/length/mod.rs
+++ b/validators-derive/src/validator_handlers/length/mod.rs
@@ -77,6 +77,8 @@ impl ValidatorHandler for LengthHandler {
                         if let Some(max) = type_attribute.max {
                             if min == max {
                                 quote! {
+                                    let length = CollectionLength::len(v);
+
                                     match ::core::cmp::Ord::cmp(&length, &#min) {
                                         ::core::cmp::Ordering::Equal => (),
                                         ::core::cmp::Ordering::Less => return Err(#error_path::TooSmall),
-- 
2.43.0


From 4a107479dcea894c72096cfffd41bb2207b5bbb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:55 +0000
Subject: [PATCH 09/26] fix: stop url, semver and semver_req from recursing
 endlessly when deserialized

---
 validators-derive/src/validator_handlers/semver/mod.rs     | 2 +-
 validators-derive/src/validator_handlers/semver_req/mod.rs | 2 +-
 validators-derive/src/validator_handlers/url/mod.rs        | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/validators-derive/src/validator_handlers/semver/mod.rs b/validators-derive/src/validator_handlers/semver/mod.rs
index 8f59c27..4ccc0b9 100644
--- a/validators-derive/src/validator_handlers/semver/mod.rs
+++ b/validators-derive/src/validator_handlers/semver/mod.rs
@@ -84,7 +84,7 @@ impl ValidatorHandler for SemverHandler {
                             fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
                             where
                                 D: validators_prelude::serde::Deserializer<'de>, {
-                                validators_prelude::serde::Deserialize::deserialize(deserializer)
+                                Ok(Self(validators_prelude::serde::Deserialize::deserialize(deserializer)?))
                             }
                         }
                     });
diff --git a/validators-derive/src/validator_handlers/semver_req/mod.rs b/validators-derive/src/validator_handlers/semver_req/mod.rs
index 772c9ae..0d0491c 100644
--- a/validators-derive/src/validator_handlers/semver_req/mod.rs
+++ b/validators-derive/src/validator_handlers/semver_req/mod.rs
@@ -84,7 +84,7 @@ impl ValidatorHandler for SemverReqHandler {
                             fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
                             where
                                 D: validators_prelude::serde::Deserializer<'de>, {
-                                validators_prelude::serde::Deserialize::deserialize(deserializer)
+                                Ok(Self(validators_prelude::serde::Deserialize::deserialize(deserializer)?))
                             }
                         }
                     });
diff --git a/validators-derive/src/validator_handlers/url/mod.rs b/validators-derive/src/validator_handlers/url/mod.rs
index 069b3dd..573ded2 100644
--- a/validators-derive/src/validator_handlers/url/mod.rs
+++ b/validators-derive/src/validator_handlers/url/mod.rs
@@ -84,7 +84,7 @@ impl ValidatorHandler for UrlHandler {
                             fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
                             where
                                 D: validators_prelude::serde::Deserializer<'de>, {
-                                validators_prelude::serde::Deserialize::deserialize(deserializer)
+                                Ok(Self(validators_prelude::serde::Deserialize::deserialize(deserializer)?))
                             }
                         }
                     });
-- 
2.43.0


From a5085c972125531485d1dcc1beaf786c66d5894d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:03 +0000
Subject: [PATCH 10/26] fix: accept integers of either signedness when
 deserializing signed_integer, unsigned_integer and number

---
 .../src/validator_handlers/number/mod.rs      | 14 +++++
 .../validator_handlers/signed_integer/mod.rs  | 14 +++++
 .../unsigned_integer/mod.rs                   | 14 +++++
 validators/src/result/serde_traits.rs         | 51 +++++++++++++++++++
 4 files changed, 93 insertions(+)

diff --git a/validators-derive/src/validator_handlers/number/mod.rs b/validators-derive/src/validator_handlers/number/mod.rs
index 5dbff68..9396cc2 100644
--- a/validators-derive/src/validator_handlers/number/mod.rs
+++ b/validators-derive/src/validator_handlers/number/mod.rs
@@ -433,6 +433,20 @@ impl ValidatorHandler for NumberHandler {
                                                 E: validators_prelude::serde::de::Error, {
                                                 <#name as ValidateNumber>::parse_f32(v).map_err(validators_prelude::serde::de::Error::custom)
                                             }
+
+                                            #[inline]
+                                            fn visit_i64<E>(self, v: i64) -> Result<Self::Value, E>
+                                            where
+                                                E: validators_prelude::serde::de::Error, {
+                                                <#name as ValidateNumber>::parse_f64(v as f64).map_err(validators_prelude::serde::de::Error::custom)
+                                            }
+
+                                            #[inline]
+                                            fn visit_u64<E>(self, v: u64) -> Result<Self::Value, E>
+                                            where
+                                                E: validators_prelude::serde::de::Error, {
+                                                <#name as ValidateNumber>::parse_f64(v as f64).map_err(validators_prelude::serde::de::Error::custom)
+                                            }
                                         }
 
                                         deserializer.deserialize_any(MyVisitor)
diff --git a/validators-derive/src/validator_handlers/signed_integer/mod.rs b/validators-derive/src/validator_handlers/signed_integer/mod.rs
index d75670a..e592463 100644
--- a/validators-derive/src/validator_handlers/signed_integer/mod.rs
+++ b/validators-derive/src/validator_handlers/signed_integer/mod.rs
@@ -641,6 +641,20 @@ impl ValidatorHandler for SignedIntegerHandler {
                                                 E: validators_prelude::serde::de::Error, {
                                                 <#name as ValidateSignedInteger>::parse_i128(v).map_err(validators_prelude::serde::de::Error::custom)
                                             }
+
+                                            #[inline]
+                                            fn visit_u64<E>(self, v: u64) -> Result<Self::Value, E>
+                                            where
+                                                E: validators_prelude::serde::de::Error, {
+                                                <#name as ValidateSignedInteger>::parse_i128(i128::from(v)).map_err(validators_prelude::serde::de::Error::custom)
+                                            }
+
+                                            #[inline]
+                                            fn visit_u128<E>(self, v: u128) -> Result<Self::Value, E>
+                                            where
+                                                E: validators_prelude::serde::de::Error, {
+                                                <#name as ValidateSignedInteger>::parse_i128(i128::try_from(v).map_err(validators_prelude::serde::de::Error::custom)?).map_err(validators_prelude::serde::de::Error::custom)
+                                            }
                                         }
 
                                         deserializer.deserialize_any(MyVisitor)
diff --git a/validators-derive/src/validator_handlers/unsigned_integer/mod.rs b/validators-derive/src/validator_handlers/unsigned_integer/mod.rs
index bf347d9..1c83edb 100644
--- a/validators-derive/src/validator_handlers/unsigned_integer/mod.rs
+++ b/validators-derive/src/validator_handlers/unsigned_integer/mod.rs
@@ -624,6 +624,20 @@ impl ValidatorHandler for UnsignedIntegerHandler {
                                                 E: validators_prelude::serde::de::Error, {
                                                 <#name as ValidateUnsignedInteger>::parse_u128(v).map_err(validators_prelude::serde::de::Error::custom)
                                             }
+
+                                            #[inline]
+                                            fn visit_i64<E>(self, v: i64) -> Result<Self::Value, E>
+                                            where
+                                                E: validators_prelude::serde::de::Error, {
+                                                <#name as ValidateUnsignedInteger>::parse_u128(u128::try_from(v).map_err(validators_prelude::serde::de::Error::custom)?).map_err(validators_prelude::serde::de::Error::custom)
+                                            }
+
+                                            #[inline]
+                                            fn visit_i128<E>(self, v: i128) -> Result<Self::Value, E>
+                                            where
+                                                E: validators_prelude::serde::de::Error, {
+                                                <#name as ValidateUnsignedInteger>::parse_u128(u128::try_from(v).map_err(validators_prelude::serde::de::Error::custom)?).map_err(validators_prelude::serde::de::Error::custom)
+                                            }
                                         }
 
                                         deserializer.deserialize_any(MyVisitor)
diff --git a/validators/src/result/serde_traits.rs b/validators/src/result/serde_traits.rs
index 5840f62..544bd9a 100644
--- a/validators/src/result/serde_traits.rs
+++ b/validators/src/result/serde_traits.rs
@@ -856,6 +856,20 @@ impl<'de, T: ValidateString<Error = NumberError> + ValidateNumber<Error = Number
                 E: DeError, {
                 Ok(Result::new(T::parse_f64(v)))
             }
+
+            #[inline]
+            fn visit_i64<E>(self, v: i64) -> core::result::Result<Self::Value, E>
+            where
+                E: DeError, {
+                Ok(Result::new(T::parse_f64(v as f64)))
+            }
+
+            #[inline]
+            fn visit_u64<E>(self, v: u64) -> core::result::Result<Self::Value, E>
+            where
+                E: DeError, {
+                Ok(Result::new(T::parse_f64(v as f64)))
+            }
         }
 
         deserializer.deserialize_any(MyVisitor(PhantomData))
@@ -1028,6 +1042,23 @@ impl<
                 E: DeError, {
                 Ok(Result::new(T::parse_i128(v)))
             }
+
+            #[inline]
+            fn visit_u64<E>(self, v: u64) -> core::result::Result<Self::Value, E>
+            where
+                E: DeError, {
+                Ok(Result::new(T::parse_i128(i128::from(v))))
+            }
+
+            #[inline]
+            fn visit_u128<E>(self, v: u128) -> core::result::Result<Self::Value, E>
+            where
+                E: DeError, {
+                Ok(Result::new(match i128::try_from(v) {
+                    Ok(v) => T::parse_i128(v),
+                    Err(_) => Err(SignedIntegerError::TooLarge),
+                }))
+            }
         }
 
         deserializer.deserialize_any(MyVisitor(PhantomData))
@@ -1143,6 +1174,26 @@ impl<
                 E: DeError, {
                 Ok(Result::new(T::parse_u128(v)))
             }
+
+            #[inline]
+            fn visit_i64<E>(self, v: i64) -> core::result::Result<Self::Value, E>
+            where
+                E: DeError, {
+                Ok(Result::new(match u128::try_from(v) {
+                    Ok(v) => T::parse_u128(v),
+                    Err(_) => Err(UnsignedIntegerError::TooSmall),
+                }))
+            }
+
+            #[inline]
+            fn visit_i128<E>(self, v: i128) -> core::result::Result<Self::Value, E>
+            where
+                E: DeError, {
+                Ok(Result::new(match u128::try_from(v) {
+                    Ok(v) => T::parse_u128(v),
+                    Err(_) => Err(UnsignedIntegerError::TooSmall),
+                }))
+            }
         }
 
         deserializer.deserialize_any(MyVisitor(PhantomData))
-- 
2.43.0


From b81ec920ebbe7ccdf273321af5b901ffd10ed379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:29 +0000
Subject: [PATCH 11/26] fix: make the validate functions of base*_decoded
 reject what the parse functions reject

---
 .../src/validator_handlers/base32_decoded/mod.rs       | 10 ++++++++--
 .../src/validator_handlers/base64_decoded/mod.rs       | 10 ++++++++--
 .../src/validator_handlers/base64_url_decoded/mod.rs   | 10 ++++++++--
 3 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/validators-derive/src/validator_handlers/base32_decoded/mod.rs b/validators-derive/src/validator_handlers/base32_decoded/mod.rs
index 9879c38..aae9504 100644
--- a/validators-derive/src/validator_handlers/base32_decoded/mod.rs
+++ b/validators-derive/src/validator_handlers/base32_decoded/mod.rs
@@ -192,7 +192,10 @@ impl ValidatorHandler for Base32DecodedHandler {
 
                             #[inline]
                             fn validate_str<S: AsRef<str>>(s: S) -> Result<(), Self::Error> {
-                                Self::v_validate_str(s.as_ref())?;
+                                let s = s.as_ref();
+
+                                Self::v_validate_str(s)?;
+                                Self::v_parse_str(s)?;
 
                                 Ok(())
                             }
@@ -213,7 +216,10 @@ impl ValidatorHandler for Base32DecodedHandler {
 
                             #[inline]
                             fn validate_u8_slice<V: AsRef<[u8]>>(v: V) -> Result<(), Self::Error> {
-                                Self::v_validate_u8_slice(v.as_ref())?;
+                                let v = v.as_ref();
+
+                                Self::v_validate_u8_slice(v)?;
+                                Self::v_parse_u8_slice(v)?;
 
                                 Ok(())
                             }
diff --git a/validators-derive/src/validator_handlers/base64_decoded/mod.rs b/validators-derive/src/validator_handlers/base64_decoded/mod.rs
index 1467c42..40a1644 100644
--- a/validators-derive/src/validator_handlers/base64_decoded/mod.rs
+++ b/validators-derive/src/validator_handlers/base64_decoded/mod.rs
@@ -192,7 +192,10 @@ impl ValidatorHandler for Base64DecodedHandler {
 
                             #[inline]
                             fn validate_str<S: AsRef<str>>(s: S) -> Result<(), Self::Error> {
-                                Self::v_validate_str(s.as_ref())?;
+                                let s = s.as_ref();
+
+                                Self::v_validate_str(s)?;
+                                Self::v_parse_str(s)?;
 
                                 Ok(())
                             }
@@ -213,7 +216,10 @@ impl ValidatorHandler for Base64DecodedHandler {
 
                             #[inline]
                             fn validate_u8_slice<V: AsRef<[u8]>>(v: V) -> Result<(), Self::Error> {
-                                Self::v_validate_u8_slice(v.as_ref())?;
+                                let v = v.as_ref();
+
+                                Self::v_validate_u8_slice(v)?;
+                                Self::v_parse_u8_slice(v)?;
 
                                 Ok(())
                             }
diff --git a/validators-derive/src/validator_handlers/base64_url_decoded/mod.rs b/validators-derive/src/validator_handlers/base64_url_decoded/mod.rs
index ab33ee1..dd98082 100644
--- a/validators-derive/src/validator_handlers/base64_url_decoded/mod.rs
+++ b/validators-derive/src/validator_handlers/base64_url_decoded/mod.rs
@@ -192,7 +192,10 @@ impl ValidatorHandler for Base64UrlDecodedHandler {
 
                             #[inline]
                             fn validate_str<S: AsRef<str>>(s: S) -> Result<(), Self::Error> {
-                                Self::v_validate_str(s.as_ref())?;
+                                let s = s.as_ref();
+
+                                Self::v_validate_str(s)?;
+                                Self::v_parse_str(s)?;
 
                                 Ok(())
                             }
@@ -213,7 +216,10 @@ impl ValidatorHandler for Base64UrlDecodedHandler {
 
                             #[inline]
                             fn validate_u8_slice<V: AsRef<[u8]>>(v: V) -> Result<(), Self::Error> {
-                                Self::v_validate_u8_slice(v.as_ref())?;
+                                let v = v.as_ref();
+
+                                Self::v_validate_u8_slice(v)?;
+                                Self::v_parse_u8_slice(v)?;
 
                                 Ok(())
                             }
-- 
2.43.0


From 62ec25392e6e9b4c13c225c97a2d6d869b384eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:57 +0000
Subject: [PATCH 12/26] fix: reject base32 and base64 texts of an impossible
 length

---
 validators-derive/src/validator_handlers/base32/mod.rs     | 6 +++++-
 validators-derive/src/validator_handlers/base64/mod.rs     | 6 +++++-
 validators-derive/src/validator_handlers/base64_url/mod.rs | 6 +++++-
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/validators-derive/src/validator_handlers/base32/mod.rs b/validators-derive/src/validator_handlers/base32/mod.rs
index 63690fd..a40a008 100644
--- a/validators-derive/src/validator_handlers/base32/mod.rs
+++ b/validators-derive/src/validator_handlers/base32/mod.rs
@@ -119,7 +119,11 @@ impl ValidatorHandler for Base32Handler {
 
                         loop {
                             if p == last_length {
-                                return Ok(());
+                                return match last_length {
+                                    // no bytes can be encoded to this number of characters
+                                    1 | 3 | 6 => Err(#error_path::Invalid),
+                                    _ => Ok(()),
+                                };
                             }
 
                             let e = last_bytes[p];
diff --git a/validators-derive/src/validator_handlers/base64/mod.rs b/validators-derive/src/validator_handlers/base64/mod.rs
index 97dbf45..2e0724d 100644
--- a/validators-derive/src/validator_handlers/base64/mod.rs
+++ b/validators-derive/src/validator_handlers/base64/mod.rs
@@ -119,7 +119,11 @@ impl ValidatorHandler for Base64Handler {
 
                         loop {
                             if p == last_length {
-                                return Ok(());
+                                return match last_length {
+                                    // no bytes can be encoded to this number of characters
+                                    1 => Err(#error_path::Invalid),
+                                    _ => Ok(()),
+                                };
                             }
 
                             let e = last_bytes[p];
diff --git a/validators-derive/src/validator_handlers/base64_url/mod.rs b/validators-derive/src/validator_handlers/base64_url/mod.rs
index 0969658..eba5eb9 100644
--- a/validators-derive/src/validator_handlers/base64_url/mod.rs
+++ b/validators-derive/src/validator_handlers/base64_url/mod.rs
@@ -120,7 +120,11 @@ impl ValidatorHandler for Base64UrlHandler {
 
                         loop {
                             if p == last_length {
-                                return Ok(());
+                                return match last_length {
+                                    // no bytes can be encoded to this number of characters
+                                    1 => Err(#error_path::Invalid),
+                                    _ => Ok(()),
+                                };
                             }
 
                             let e = last_bytes[p];
-- 
2.43.0


From cbf5cff653535016a21a86bacf3540b1024bee9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:41 +0000
Subject: [PATCH 13/26] fix: check the bounds of ranges written as Rust range
 expressions

---
 validators-derive/src/common/range.rs | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/validators-derive/src/common/range.rs b/validators-derive/src/common/range.rs
index 37bc0d9..4332fb4 100644
--- a/validators-derive/src/common/range.rs
+++ b/validators-derive/src/common/range.rs
@@ -126,7 +126,7 @@ where
             Meta::NameValue(name_value) => {
                 #[cfg(feature = "full")]
                 if let Expr::Range(range) = &name_value.value {
-                    return Self::from_expr_range(range);
+                    return Self::from_expr_range(range)?.check(meta);
                 }
 
                 let _ = name_value;
@@ -136,7 +136,7 @@ where
             Meta::List(list) => {
                 #[cfg(feature = "full")]
                 if let Ok(range) = list.parse_args::<ExprRange>() {
-                    return Self::from_expr_range(&range);
+                    return Self::from_expr_range(&range)?.check(meta);
                 }
 
                 let result =
@@ -206,10 +206,19 @@ where
             },
         }
 
-        if let Some(min) = min
-            && let Some(max) = max
+        Self {
+            min,
+            max,
+            inclusive,
+        }
+        .check(meta)
+    }
+
+    fn check(self, meta: &Meta) -> syn::Result<Self> {
+        if let Some(min) = self.min
+            && let Some(max) = self.max
         {
-            if inclusive {
+            if self.inclusive {
                 if min > max {
                     return Err(syn::Error::new_spanned(
                         meta.path(),
@@ -224,11 +233,7 @@ where
             }
         }
 
-        Ok(Self {
-            min,
-            max,
-            inclusive,
-        })
+        Ok(self)
     }
 }
 
-- 
2.43.0


From 831342fd5d06bfbb65d87849de48836ed3db9893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:40 +0000
Subject: [PATCH 14/26] fix: apply the 64-byte limit of the local part of an
 email in every case

---
 validators-derive/src/validator_handlers/email/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/validators-derive/src/validator_handlers/email/mod.rs b/validators-derive/src/validator_handlers/email/mod.rs
index 478d5a9..dd7fbff 100644
--- a/validators-derive/src/validator_handlers/email/mod.rs
+++ b/validators-derive/src/validator_handlers/email/mod.rs
@@ -901,7 +901,7 @@ impl ValidatorHandler for EmailHandler {
                     if length > local_part_length {
                         match bytes[local_part_length..]
                             .iter()
-                            .take(64 - local_part_length)
+                            .take(64usize.saturating_sub(local_part_length))
                             .copied()
                             .position(|e| e == b')')
                         {
@@ -1225,6 +1225,11 @@ impl ValidatorHandler for EmailHandler {
                             None::<&str>
                         };
 
+                        if local_part_length > 64 {
+                            // too long
+                            return Err(#error_path::Invalid);
+                        }
+
                         if bytes[local_part_length] != b'@' || local_part_length + 1 == length {
                             return Err(#error_path::Invalid);
                         }
-- 
2.43.0


From 9e47e447c6185bdb26e1eb53eb092851740aadd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:40 +0000
Subject: [PATCH 15/26] fix: end the escaping in a quoted local part of an
 email at a whitespace

---
 validators-derive/src/validator_handlers/email/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/validators-derive/src/validator_handlers/email/mod.rs b/validators-derive/src/validator_handlers/email/mod.rs
index dd7fbff..a0967e5 100644
--- a/validators-derive/src/validator_handlers/email/mod.rs
+++ b/validators-derive/src/validator_handlers/email/mod.rs
@@ -1098,6 +1098,7 @@ impl ValidatorHandler for EmailHandler {
                                         }
 
                                         need_quoted = true;
+                                        escaping = false;
                                     }
                                     b'(' | b')' | b',' | b':'..=b'<' | b'>' | b'@' | b'[' | b']' => {
                                         if p == 63 || !escaping {
-- 
2.43.0


From c300b7cc6811ac6467a1487f5f15479d080c0bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:40 +0000
Subject: [PATCH 16/26] fix: require quotes for a local part of an email which
 ends with a dot

---
 validators-derive/src/validator_handlers/email/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/validators-derive/src/validator_handlers/email/mod.rs b/validators-derive/src/validator_handlers/email/mod.rs
index a0967e5..2182b3c 100644
--- a/validators-derive/src/validator_handlers/email/mod.rs
+++ b/validators-derive/src/validator_handlers/email/mod.rs
@@ -1127,7 +1127,7 @@ impl ValidatorHandler for EmailHandler {
                                                 return Err(#error_path::Invalid);
                                             }
 
-                                            break (local_part, need_quoted, true);
+                                            break (local_part, need_quoted || last_dot, true);
                                         }
                                     }
                                     _ => {
@@ -1203,6 +1203,11 @@ impl ValidatorHandler for EmailHandler {
                                         last_dot = true;
                                     }
                                     b'@' | b'(' => {
+                                        if last_dot {
+                                            // '.' is not allowed as the last character
+                                            return Err(#error_path::Invalid);
+                                        }
+
                                         let local_part =
                                             &s[local_part_length..p];
 
-- 
2.43.0


From b532ec3310aaed75663690e3ddf336f067d492b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:40 +0000
Subject: [PATCH 17/26] fix: reject an email with anything after its last
 comment

---
 validators-derive/src/validator_handlers/email/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/validators-derive/src/validator_handlers/email/mod.rs b/validators-derive/src/validator_handlers/email/mod.rs
index 2182b3c..733594c 100644
--- a/validators-derive/src/validator_handlers/email/mod.rs
+++ b/validators-derive/src/validator_handlers/email/mod.rs
@@ -973,6 +973,11 @@ impl ValidatorHandler for EmailHandler {
                                     let comment =
                                         &s[domain_part_length..index];
 
+                                    if index + 1 != length {
+                                        // something follows the last comment
+                                        return Err(#error_path::Invalid);
+                                    }
+
                                     Some(comment)
                                 }
                                 None => return Err(#error_path::Invalid),
-- 
2.43.0


From 6a608bf438b2c8d02295b534766fd7e9f2dd9e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:40 +0000
Subject: [PATCH 18/26] fix: do not count the quotes of the local part in the
 length of the domain part of an email

---
 .../src/validator_handlers/email/mod.rs              | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/validators-derive/src/validator_handlers/email/mod.rs b/validators-derive/src/validator_handlers/email/mod.rs
index 733594c..ec2ee65 100644
--- a/validators-derive/src/validator_handlers/email/mod.rs
+++ b/validators-derive/src/validator_handlers/email/mod.rs
@@ -1009,7 +1009,7 @@ impl ValidatorHandler for EmailHandler {
                             (0, None::<&str>)
                         };
 
-                        let (local_part, need_quoted, quoted) = if bytes[local_part_length] == b'"' {
+                        let (local_part, need_quoted) = if bytes[local_part_length] == b'"' {
                             // quoted
                             let mut p = local_part_length + 1;
 
@@ -1132,7 +1132,7 @@ impl ValidatorHandler for EmailHandler {
                                                 return Err(#error_path::Invalid);
                                             }
 
-                                            break (local_part, need_quoted || last_dot, true);
+                                            break (local_part, need_quoted || last_dot);
                                         }
                                     }
                                     _ => {
@@ -1218,7 +1218,7 @@ impl ValidatorHandler for EmailHandler {
 
                                         local_part_length = p;
 
-                                        break (local_part, false, false);
+                                        break (local_part, false);
                                     }
                                     _ => {
                                         #handle_unrecognized_byte_unquoted
@@ -1259,11 +1259,7 @@ impl ValidatorHandler for EmailHandler {
                             (0, None::<&str>)
                         };
 
-                        let mut domain_part_length_offset: isize = if quoted && need_quoted {
-                            -2
-                        } else {
-                            0
-                        };
+                        let mut domain_part_length_offset: isize = 0;
 
                         let (host, is_local): (validators_prelude::Host, bool) = match bytes[domain_part_length] {
                             b'(' => return Err(#error_path::Invalid),
-- 
2.43.0


From e9ff41f719782aa4cc2c985ca2c5bf4f18633819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:41 +0000
Subject: [PATCH 19/26] fix: keep the quotes of an email whose comments are
 disallowed

---
 .../src/validator_handlers/email/mod.rs        | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/validators-derive/src/validator_handlers/email/mod.rs b/validators-derive/src/validator_handlers/email/mod.rs
index ec2ee65..2847d00 100644
--- a/validators-derive/src/validator_handlers/email/mod.rs
+++ b/validators-derive/src/validator_handlers/email/mod.rs
@@ -1542,7 +1542,11 @@ impl ValidatorHandler for EmailHandler {
                             impl ToEmailString for #name {
                                 #[inline]
                                 fn to_email_string(&self) -> validators_prelude::String {
-                                    let local_part = &self.local_part;
+                                    let local_part = if self.need_quoted {
+                                        validators_prelude::Cow::Owned(validators_prelude::format!("\"{}\"", self.local_part))
+                                    } else {
+                                        validators_prelude::Cow::Borrowed(self.local_part.as_str())
+                                    };
 
                                     match &self.domain_part {
                                         validators_prelude::Host::IPv4(ip) => validators_prelude::format!("{}@[{}]", local_part, ip),
@@ -1558,7 +1562,11 @@ impl ValidatorHandler for EmailHandler {
                             impl ToEmailString for #name {
                                 #[inline]
                                 fn to_email_string(&self) -> validators_prelude::String {
-                                    let local_part = &self.local_part;
+                                    let local_part = if self.need_quoted {
+                                        validators_prelude::Cow::Owned(validators_prelude::format!("\"{}\"", self.local_part))
+                                    } else {
+                                        validators_prelude::Cow::Borrowed(self.local_part.as_str())
+                                    };
 
                                     match &self.domain_part {
                                         ::std::net::IpAddr::V4(ip) => validators_prelude::format!("{}@[{}]", local_part, ip),
@@ -1573,7 +1581,11 @@ impl ValidatorHandler for EmailHandler {
                             impl ToEmailString for #name {
                                 #[inline]
                                 fn to_email_string(&self) -> validators_prelude::String {
-                                    let local_part = &self.local_part;
+                                    let local_part = if self.need_quoted {
+                                        validators_prelude::Cow::Owned(validators_prelude::format!("\"{}\"", self.local_part))
+                                    } else {
+                                        validators_prelude::Cow::Borrowed(self.local_part.as_str())
+                                    };
                                     let domain_part = &self.domain_part;
 
                                     validators_prelude::format!("{}@{}", local_part, domain_part)
-- 
2.43.0


From 7bf2528b35685b855d5b00f6df15420b2c0fdf99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:42 +0000
Subject: [PATCH 20/26] fix: reject an email whose domain part ends with a
 non-ASCII dot

---
 validators-derive/src/validator_handlers/email/mod.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/validators-derive/src/validator_handlers/email/mod.rs b/validators-derive/src/validator_handlers/email/mod.rs
index 2847d00..e903909 100644
--- a/validators-derive/src/validator_handlers/email/mod.rs
+++ b/validators-derive/src/validator_handlers/email/mod.rs
@@ -824,10 +824,6 @@ impl ValidatorHandler for EmailHandler {
                         }
                     };
 
-                    if domain_str.ends_with(".") {
-                        return Err(#error_path::Invalid);
-                    }
-
                     match validators_prelude::idna::Config::default()
                         .use_std3_ascii_rules(true)
                         .verify_dns_length(true)
@@ -835,6 +831,11 @@ impl ValidatorHandler for EmailHandler {
                         .to_ascii(domain_str)
                     {
                         Ok(ascii_domain) => {
+                            // IDNA can map non-ASCII characters to dots
+                            if ascii_domain.ends_with('.') {
+                                return Err(#error_path::Invalid);
+                            }
+
                             domain_part_length += domain_str.len();
 
                             let is_local = #handle_local_domain;
-- 
2.43.0


From e455945eb53d13205d819e46e063a678993dfdd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:15 +0000
Subject: [PATCH 21/26] fix: reject padding in the middle of the text in
 base*_decoded

---
 .../src/validator_handlers/base32_decoded/mod.rs             | 5 +++++
 .../src/validator_handlers/base64_decoded/mod.rs             | 5 +++++
 .../src/validator_handlers/base64_url_decoded/mod.rs         | 5 +++++
 3 files changed, 15 insertions(+)

diff --git a/validators-derive/src/validator_handlers/base32_decoded/mod.rs b/validators-derive/src/validator_handlers/base32_decoded/mod.rs
index aae9504..222093d 100644
--- a/validators-derive/src/validator_handlers/base32_decoded/mod.rs
+++ b/validators-derive/src/validator_handlers/base32_decoded/mod.rs
@@ -113,6 +113,11 @@ impl ValidatorHandler for Base32DecodedHandler {
                                     return Err(#error_path::Invalid);
                                 }
 
+                                if v.iter().skip_while(|e| **e != b'=').any(|e| *e != b'=') {
+                                    // padding is only allowed at the end
+                                    return Err(#error_path::Decode);
+                                }
+
                                 #decode
                             }
 
diff --git a/validators-derive/src/validator_handlers/base64_decoded/mod.rs b/validators-derive/src/validator_handlers/base64_decoded/mod.rs
index 40a1644..f708152 100644
--- a/validators-derive/src/validator_handlers/base64_decoded/mod.rs
+++ b/validators-derive/src/validator_handlers/base64_decoded/mod.rs
@@ -113,6 +113,11 @@ impl ValidatorHandler for Base64DecodedHandler {
                                     return Err(#error_path::Invalid);
                                 }
 
+                                if v.iter().skip_while(|e| **e != b'=').any(|e| *e != b'=') {
+                                    // padding is only allowed at the end
+                                    return Err(#error_path::Decode);
+                                }
+
                                 #decode
                             }
 
diff --git a/validators-derive/src/validator_handlers/base64_url_decoded/mod.rs b/validators-derive/src/validator_handlers/base64_url_decoded/mod.rs
index dd98082..4afd9c1 100644
--- a/validators-derive/src/validator_handlers/base64_url_decoded/mod.rs
+++ b/validators-derive/src/validator_handlers/base64_url_decoded/mod.rs
@@ -113,6 +113,11 @@ impl ValidatorHandler for Base64UrlDecodedHandler {
                                     return Err(#error_path::Invalid);
                                 }
 
+                                if v.iter().skip_while(|e| **e != b'=').any(|e| *e != b'=') {
+                                    // padding is only allowed at the end
+                                    return Err(#error_path::Decode);
+                                }
+
                                 #decode
                             }
 
-- 
2.43.0


From 1b1d1729d790794ab72f63ea75c3dd52dd16a427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:09 +0000
Subject: [PATCH 22/26] fix: let an unsigned_integer outside a range with both
 bounds compile

---
 .../src/validator_handlers/unsigned_integer/mod.rs            | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/validators-derive/src/validator_handlers/unsigned_integer/mod.rs b/validators-derive/src/validator_handlers/unsigned_integer/mod.rs
index 1c83edb..48b7e41 100644
--- a/validators-derive/src/validator_handlers/unsigned_integer/mod.rs
+++ b/validators-derive/src/validator_handlers/unsigned_integer/mod.rs
@@ -142,13 +142,13 @@ impl ValidatorHandler for UnsignedIntegerHandler {
                                     Some(max) => {
                                         if *inclusive {
                                             quote! {
-                                                if (#min..=#max).contains(&i) {
+                                                if (#min..=#max).contains(&u) {
                                                     return Err(#error_path::Forbidden);
                                                 }
                                             }
                                         } else {
                                             quote! {
-                                                if (#min..#max).contains(&i) {
+                                                if (#min..#max).contains(&u) {
                                                     return Err(#error_path::Forbidden);
                                                 }
                                             }
-- 
2.43.0


From 1a886835b6b72a02899ac81915b9595a1b4358c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:46 +0000
Subject: [PATCH 23/26] fix: report a too long text even when only its leading
 whitespace has been looked at

---
 validators-derive/src/validator_handlers/line/mod.rs | 12 ++++++++++--
 validators-derive/src/validator_handlers/text/mod.rs | 12 ++++++++++--
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/validators-derive/src/validator_handlers/line/mod.rs b/validators-derive/src/validator_handlers/line/mod.rs
index aaaa627..3f89576 100644
--- a/validators-derive/src/validator_handlers/line/mod.rs
+++ b/validators-derive/src/validator_handlers/line/mod.rs
@@ -165,7 +165,11 @@ impl ValidatorHandler for LineHandler {
                                         }
                                     } else {
                                         quote! {
-                                            Err(#error_path::TooShort)
+                                            if counter > #max {
+                                                Err(#error_path::TooLong)
+                                            } else {
+                                                Err(#error_path::TooShort)
+                                            }
                                         }
                                     };
 
@@ -346,7 +350,11 @@ impl ValidatorHandler for LineHandler {
                                         }
                                     } else {
                                         quote! {
-                                            Err(#error_path::TooShort)
+                                            if counter > #max {
+                                                Err(#error_path::TooLong)
+                                            } else {
+                                                Err(#error_path::TooShort)
+                                            }
                                         }
                                     };
 
diff --git a/validators-derive/src/validator_handlers/text/mod.rs b/validators-derive/src/validator_handlers/text/mod.rs
index 6345cf4..716f3bd 100644
--- a/validators-derive/src/validator_handlers/text/mod.rs
+++ b/validators-derive/src/validator_handlers/text/mod.rs
@@ -165,7 +165,11 @@ impl ValidatorHandler for TextHandler {
                                         }
                                     } else {
                                         quote! {
-                                            Err(#error_path::TooShort)
+                                            if counter > #max {
+                                                Err(#error_path::TooLong)
+                                            } else {
+                                                Err(#error_path::TooShort)
+                                            }
                                         }
                                     };
 
@@ -346,7 +350,11 @@ impl ValidatorHandler for TextHandler {
                                         }
                                     } else {
                                         quote! {
-                                            Err(#error_path::TooShort)
+                                            if counter > #max {
+                                                Err(#error_path::TooLong)
+                                            } else {
+                                                Err(#error_path::TooShort)
+                                            }
                                         }
                                     };
 
-- 
2.43.0


From c1775ef122fd30d2fd9a422a6de596b454808523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:20 +0000
Subject: [PATCH 24/26] fix: accept a phone number that only some of the
 configured countries can parse

---
 .../src/validator_handlers/phone/mod.rs       | 20 +++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/validators-derive/src/validator_handlers/phone/mod.rs b/validators-derive/src/validator_handlers/phone/mod.rs
index b6a5fed..ccb89c1 100644
--- a/validators-derive/src/validator_handlers/phone/mod.rs
+++ b/validators-derive/src/validator_handlers/phone/mod.rs
@@ -99,19 +99,27 @@ impl ValidatorHandler for PhoneHandler {
                                     #[inline]
                                     fn v_parse_str(s: &str) -> Result<::std::collections::HashMap<validators_prelude::phonenumber::country::Id, validators_prelude::phonenumber::PhoneNumber>, #error_path> {
                                         let mut map = ::std::collections::HashMap::with_capacity(2);
+                                        let mut error = None;
 
+                                        // a number of one country may not even be parsable in another one
                                         #(
-                                            let phonenumber = validators_prelude::phonenumber::parse(Some(validators_prelude::phonenumber::country::Id::#c), s)?;
-
-                                            if let Some(id) = phonenumber.country().id() {
-                                                if id == validators_prelude::phonenumber::country::Id::#c && phonenumber.is_valid() {
-                                                    map.insert(validators_prelude::phonenumber::country::Id::#c, phonenumber);
+                                            match validators_prelude::phonenumber::parse(Some(validators_prelude::phonenumber::country::Id::#c), s) {
+                                                Ok(phonenumber) => {
+                                                    if let Some(id) = phonenumber.country().id() {
+                                                        if id == validators_prelude::phonenumber::country::Id::#c && phonenumber.is_valid() {
+                                                            map.insert(validators_prelude::phonenumber::country::Id::#c, phonenumber);
+                                                        }
+                                                    }
                                                 }
+                                                Err(err) => error = Some(err),
                                             }
                                         )*
 
                                         if map.is_empty() {
-                                            Err(#error_path::Invalid)
+                                            match error {
+                                                Some(error) => Err(error.into()),
+                                                None => Err(#error_path::Invalid),
+                                            }
                                         } else {
                                             Ok(map)
                                         }
-- 
2.43.0


From c719a1793abc72b09f081a7f065997cac175bb37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:43 +0000
Subject: [PATCH 25/26] fix: let any expression be given as a regex

---
 validators-derive/src/validator_handlers/regex/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/validators-derive/src/validator_handlers/regex/mod.rs b/validators-derive/src/validator_handlers/regex/mod.rs
index 1e37cad..d5ca7cf 100644
--- a/validators-derive/src/validator_handlers/regex/mod.rs
+++ b/validators-derive/src/validator_handlers/regex/mod.rs
@@ -35,7 +35,7 @@ impl ValidatorHandler for RegexHandler {
                 impl #name {
                     #[inline]
                     fn v_parse_str(s: &str) -> Result<(), #error_path> {
-                        if !#re.is_match(s) {
+                        if !(#re).is_match(s) {
                             return Err(#error_path);
                         }
 
-- 
2.43.0


From 81e7c1eb515eb45262b920b3407081c1d3bcaadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:18 +0000
Subject: [PATCH 26/26] fix: do not overflow when the max char_length of a line
 or text is usize::MAX

---
 validators-derive/src/validator_handlers/line/mod.rs | 8 ++++----
 validators-derive/src/validator_handlers/text/mod.rs | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/validators-derive/src/validator_handlers/line/mod.rs b/validators-derive/src/validator_handlers/line/mod.rs
index 3f89576..811042c 100644
--- a/validators-derive/src/validator_handlers/line/mod.rs
+++ b/validators-derive/src/validator_handlers/line/mod.rs
@@ -174,7 +174,7 @@ impl ValidatorHandler for LineHandler {
                                     };
 
                                     quote! {
-                                        let mut chars = s.chars().take(#max + 1);
+                                        let mut chars = s.chars().take(#max.saturating_add(1));
                                         let mut counter = 0;
 
                                         while let Some(c) = chars.next() {
@@ -245,7 +245,7 @@ impl ValidatorHandler for LineHandler {
                                     }
                                 } else {
                                     quote! {
-                                        let mut chars = s.chars().take(#max + 1);
+                                        let mut chars = s.chars().take(#max.saturating_add(1));
                                         let mut counter = 0;
 
                                         while let Some(c) = chars.next() {
@@ -359,7 +359,7 @@ impl ValidatorHandler for LineHandler {
                                     };
 
                                     quote! {
-                                        let mut chars = s.chars().take(#max + 1);
+                                        let mut chars = s.chars().take(#max.saturating_add(1));
                                         let mut counter = 0;
 
                                         while let Some(c) = chars.next() {
@@ -428,7 +428,7 @@ impl ValidatorHandler for LineHandler {
                                     }
                                 } else {
                                     quote! {
-                                        let mut chars = s.chars().take(#max + 1);
+                                        let mut chars = s.chars().take(#max.saturating_add(1));
                                         let mut counter = 0;
 
                                         while let Some(c) = chars.next() {
diff --git a/validators-derive/src/validator_handlers/text/mod.rs b/validators-derive/src/validator_handlers/text/mod.rs
index 716f3bd..7e2c29e 100644
--- a/validators-derive/src/validator_handlers/text/mod.rs
+++ b/validators-derive/src/validator_handlers/text/mod.rs
@@ -174,7 +174,7 @@ impl ValidatorHandler for TextHandler {
                                     };
 
                                     quote! {
-                                        let mut chars = s.chars().take(#max + 1);
+                                        let mut chars = s.chars().take(#max.saturating_add(1));
                                         let mut counter = 0;
 
                                         while let Some(c) = chars.next() {
@@ -245,7 +245,7 @@ impl ValidatorHandler for TextHandler {
                                     }
                                 } else {
                                     quote! {
-                                        let mut chars = s.chars().take(#max + 1);
+                                        let mut chars = s.chars().take(#max.saturating_add(1));
                                         let mut counter = 0;
 
                                         while let Some(c) = chars.next() {
@@ -359,7 +359,7 @@ impl ValidatorHandler for TextHandler {
                                     };
 
                                     quote! {
-                                        let mut chars = s.chars().take(#max + 1);
+                                        let mut chars = s.chars().take(#max.saturating_add(1));
                                         let mut counter = 0;
 
                                         while let Some(c) = chars.next() {
@@ -428,7 +428,7 @@ impl ValidatorHandler for TextHandler {
                                     }
                                 } else {
                                     quote! {
-                                        let mut chars = s.chars().take(#max + 1);
+                                        let mut chars = s.chars().take(#max.saturating_add(1));
                                         let mut counter = 0;
 
                                         while let Some(c) = chars.next() {
-- 
2.43.0

