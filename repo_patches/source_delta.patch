From 789baff111bae5f9f839c99887042ea07abcbff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:11 +0000
Subject: [PATCH 01/20] fix: validate registered JWT claims whose value is
 falsy (exp: 0, aud: 0)

---
 src/psion/jose/jwt.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/psion/jose/jwt.py b/src/psion/jose/jwt.py
index c895f62..5ab4de9 100644
--- a/src/psion/jose/jwt.py
+++ b/src/psion/jose/jwt.py
@@ -43,7 +43,7 @@ class JsonWebTokenClaims(dict):
         now = int(datetime.utcnow().timestamp())
 
         # Validate aud
-        if aud := claims.get("aud"):
+        if (aud := claims.get("aud")) is not None:
             if aud is not None and not isinstance(aud, (str, list)):
                 raise InvalidJWTClaim('Invalid claim "aud".')
 
@@ -52,7 +52,7 @@ class JsonWebTokenClaims(dict):
                     raise InvalidJWTClaim('Invalid claim "aud".')
 
         # Validate exp
-        if exp := claims.get("exp"):
+        if (exp := claims.get("exp")) is not None:
             if exp is not None and type(exp) is not int:
                 raise InvalidJWTClaim('Invalid claim "exp".')
 
@@ -60,7 +60,7 @@ class JsonWebTokenClaims(dict):
                 raise ExpiredToken
 
         # Validate iat
-        if iat := claims.get("iat"):
+        if (iat := claims.get("iat")) is not None:
             if iat is not None and type(iat) is not int:
                 raise InvalidJWTClaim('Invalid claim "iat".')
 
@@ -76,7 +76,7 @@ class JsonWebTokenClaims(dict):
             raise InvalidJWTClaim('Invalid claim "jti".')
 
         # Validate nbf
-        if nbf := claims.get("nbf"):
+        if (nbf := claims.get("nbf")) is not None:
             if nbf is not None and type(nbf) is not int:
                 raise InvalidJWTClaim('Invalid claim "nbf".')
 
-- 
2.43.0


From bba1a366075dd9cfeeb7ebbc88fef9b495885648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:13 +0000
Subject: [PATCH 02/20] fix: compute the current POSIX time independently of
 the host timezone

---
 src/psion/jose/jwt.py                      | 4 ++--
 src/psion/oidc/flows/authorization_code.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/psion/jose/jwt.py b/src/psion/jose/jwt.py
index 5ab4de9..8f46148 100644
--- a/src/psion/jose/jwt.py
+++ b/src/psion/jose/jwt.py
@@ -1,6 +1,6 @@
 from __future__ import annotations
 
-from datetime import datetime
+from datetime import datetime, timezone
 
 from psion.jose.exceptions import ExpiredToken, InvalidJWTClaim, NotYetValidToken
 from psion.jose.jwk import JsonWebKey
@@ -40,7 +40,7 @@ class JsonWebTokenClaims(dict):
 
     def _validate_default_claims(self, claims: dict) -> None:
         # Used to validate the date attributes.
-        now = int(datetime.utcnow().timestamp())
+        now = int(datetime.now(timezone.utc).timestamp())
 
         # Validate aud
         if (aud := claims.get("aud")) is not None:
diff --git a/src/psion/oidc/flows/authorization_code.py b/src/psion/oidc/flows/authorization_code.py
index 85af632..b047944 100644
--- a/src/psion/oidc/flows/authorization_code.py
+++ b/src/psion/oidc/flows/authorization_code.py
@@ -1,4 +1,4 @@
-from datetime import datetime
+from datetime import datetime, timezone
 
 from psion.jose import JsonWebToken
 from psion.jose.jwk import JsonWebKey
@@ -66,7 +66,7 @@ class AuthorizationCodeFlow:
 
         key_info = await self.adapter.get_key_info()
         userinfo = await self.adapter.get_userinfo(user, token["scope"].split())
-        now = int(datetime.utcnow().timestamp())
+        now = int(datetime.now(timezone.utc).timestamp())
 
         key: JsonWebKey = key_info["key"]
 
-- 
2.43.0


From 4bcd4a3d2eb2c345a8a17cdf5726d2da155b7c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:15 +0000
Subject: [PATCH 03/20] fix: keep validating the remaining claim options after
 a list claim matched

---
 src/psion/jose/jwt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psion/jose/jwt.py b/src/psion/jose/jwt.py
index 8f46148..5c23a34 100644
--- a/src/psion/jose/jwt.py
+++ b/src/psion/jose/jwt.py
@@ -119,7 +119,7 @@ class JsonWebTokenClaims(dict):
                 if isinstance(value, list) and any(
                     item in option["values"] for item in value
                 ):
-                    break
+                    continue
 
                 for expected_value in option["values"]:
                     if value == expected_value:
-- 
2.43.0


From ea0ac6c7134b0dd0e06d6787cbe2470e6b9c5bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:17 +0000
Subject: [PATCH 04/20] fix: enforce a falsy expected value in the claim
 options

---
 src/psion/jose/jwt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psion/jose/jwt.py b/src/psion/jose/jwt.py
index 5c23a34..211c23a 100644
--- a/src/psion/jose/jwt.py
+++ b/src/psion/jose/jwt.py
@@ -107,7 +107,7 @@ class JsonWebTokenClaims(dict):
             if option.get("essential") and value is None:
                 raise InvalidJWTClaim(f'Missing required claim "{claim}".')
 
-            if option.get("value") and value != option.get("value"):
+            if option.get("value") is not None and value != option.get("value"):
                 raise InvalidJWTClaim(
                     f'Mismatching expected value "{option.get("value")}". Got "{value}".'
                 )
-- 
2.43.0


From 425f0ed5c808bdd22b81773621d2beda9aa582ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:19 +0000
Subject: [PATCH 05/20] fix: treat a malformed Authorization header as absent
 credentials

---
 src/psion/webtools.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/psion/webtools.py b/src/psion/webtools.py
index fcacbeb..13e94c5 100644
--- a/src/psion/webtools.py
+++ b/src/psion/webtools.py
@@ -252,14 +252,17 @@ def get_basic_authorization(headers: dict) -> tuple[str, str]:
     if not auth or not isinstance(auth, str) or " " not in auth:
         return None, None
 
-    method, token = auth.split(None, 1)
+    if len(parts := auth.split(None, 1)) != 2:
+        return None, None
+
+    method, token = parts
 
     if method.lower() != "basic":
         return None, None
 
     try:
         credentials = to_string(base64.b64decode(token))
-    except (binascii.Error, TypeError):
+    except (binascii.Error, TypeError, ValueError):
         return None, None
 
     if ":" not in credentials:
@@ -289,7 +292,10 @@ def get_bearer_authorization(headers: dict) -> str:
     if not auth or not isinstance(auth, str) or " " not in auth:
         return None
 
-    method, token = auth.split(None, 1)
+    if len(parts := auth.split(None, 1)) != 2:
+        return None
+
+    method, token = parts
 
     if method.lower() != "bearer":
         return None
-- 
2.43.0


From f20f600a63601429e61ef84922cd97b43b3aa620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:21 +0000
Subject: [PATCH 06/20] fix: encode the integer zero as one octet so that it
 can be decoded

---
 src/psion/webtools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psion/webtools.py b/src/psion/webtools.py
index 13e94c5..13b82c7 100644
--- a/src/psion/webtools.py
+++ b/src/psion/webtools.py
@@ -155,7 +155,7 @@ def int_to_b64(data: int) -> bytes:
     if data < 0:
         raise ValueError("Must be a natural number.")
 
-    res = data.to_bytes((data.bit_length() + 7) // 8, "big", signed=False)
+    res = data.to_bytes(max((data.bit_length() + 7) // 8, 1), "big", signed=False)
     return base64url_encode(res)
 
 
-- 
2.43.0


From c605b74405e1182c0b07860874d82da17d818c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:23 +0000
Subject: [PATCH 07/20] fix: export the secret of a symmetric key instead of
 decoding it twice

---
 src/psion/jose/jwa/jwk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psion/jose/jwa/jwk.py b/src/psion/jose/jwa/jwk.py
index 304eeb1..a3699dd 100644
--- a/src/psion/jose/jwa/jwk.py
+++ b/src/psion/jose/jwa/jwk.py
@@ -571,7 +571,7 @@ class OCTKey(JWKAlgorithm):
         if public:
             warnings.warn("Secret keys do not have public info.", RuntimeWarning)
 
-        return base64.b64encode(base64url_decode(to_bytes(self._secret)))
+        return base64.b64encode(self._secret)
 
     def sign(self, data: bytes, algorithm: AlgType) -> bytes:
         """
-- 
2.43.0


From 4e625d493b816dd762da8bcdaf32de95e320f1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:25 +0000
Subject: [PATCH 08/20] fix: extend the query of a URL that already has one

---
 src/psion/webtools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psion/webtools.py b/src/psion/webtools.py
index 13b82c7..04f724a 100644
--- a/src/psion/webtools.py
+++ b/src/psion/webtools.py
@@ -219,7 +219,7 @@ def urlencode(url: str, **params) -> str:
     :rtype: str
     """
 
-    return f"{url}?{urlencode_(FullDict(params))}"
+    return f"{url}{'&' if '?' in url else '?'}{urlencode_(FullDict(params))}"
 
 
 def urldecode(query_string: str) -> dict:
-- 
2.43.0


From 2c876baf298a5d1768c52fffad02cbe7b6300f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:26 +0000
Subject: [PATCH 09/20] fix: reject a non-empty signature of an unsecured JWS

---
 src/psion/jose/jwa/jws.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/psion/jose/jwa/jws.py b/src/psion/jose/jwa/jws.py
index 8e75b62..e87c625 100644
--- a/src/psion/jose/jwa/jws.py
+++ b/src/psion/jose/jwa/jws.py
@@ -95,7 +95,9 @@ class none(JWSAlgorithm):
 
     @classmethod
     def verify(cls, signature: bytes, data: bytes, key: JsonWebKey = None) -> None:
-        pass
+        # RFC 7518 Section 3.6: The signature MUST be the empty octet sequence.
+        if signature:
+            raise InvalidSignature
 
 
 class _HMAC(JWSAlgorithm):
-- 
2.43.0


From c01523cd85ec5cb358a06e867a8feb52fead0b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:47 +0000
Subject: [PATCH 10/20] fix: parse raw secrets that cannot be the path of a
 file

---
 src/psion/jose/jwa/jwk.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/psion/jose/jwa/jwk.py b/src/psion/jose/jwa/jwk.py
index a3699dd..217075b 100644
--- a/src/psion/jose/jwa/jwk.py
+++ b/src/psion/jose/jwa/jwk.py
@@ -3,6 +3,7 @@ from __future__ import annotations
 import abc
 import base64
 import enum
+import errno
 import os
 import secrets
 import warnings
@@ -64,7 +65,12 @@ def _parse_raw(path_or_secret: os.PathLike | bytes) -> bytes:
     try:
         with open(path_or_secret, "rb") as f:
             return f.read()
-    except (FileNotFoundError, IsADirectoryError):
+    except (FileNotFoundError, IsADirectoryError, NotADirectoryError, ValueError):
+        return to_bytes(path_or_secret)
+    except OSError as exc:
+        if exc.errno != errno.ENAMETOOLONG:
+            raise
+
         return to_bytes(path_or_secret)
 
 
-- 
2.43.0


From 73a42452a05140e5bef9aca185d8543dbd497005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:14 +0000
Subject: [PATCH 11/20] fix: validate the client and its redirect URI before
 redirecting any error to it

---
 src/psion/oauth2/endpoints/authorization.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/psion/oauth2/endpoints/authorization.py b/src/psion/oauth2/endpoints/authorization.py
index 5f1c160..1677152 100644
--- a/src/psion/oauth2/endpoints/authorization.py
+++ b/src/psion/oauth2/endpoints/authorization.py
@@ -77,20 +77,20 @@ class AuthorizationEndpoint(BaseEndpoint):
         try:
             self._validate_request(data)
 
-            if (user := request.user) is None:
-                raise AccessDenied
-
-            grant = self._validate_response_type(
-                response_type=data.pop("response_type"), state=data.get("state")
-            )
-
             client = await self._validate_client(
                 client_id=data["client_id"],
                 redirect_uri=data["redirect_uri"],
-                response_type=grant.__response_type__,
+                response_type=data["response_type"],
                 state=data.get("state"),
             )
 
+            if (user := request.user) is None:
+                raise AccessDenied(state=data.get("state"))
+
+            grant = self._validate_response_type(
+                response_type=data.pop("response_type"), state=data.get("state")
+            )
+
             url = await grant.authorize(data, client, user)
             return RedirectResponse(url)
         except FatalError as exc:
-- 
2.43.0


From d5267d324353ce70855ca45c23565632ff754253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:17 +0000
Subject: [PATCH 12/20] fix: return the state in the error of a consent request
 without scope

---
 src/psion/oauth2/endpoints/authorization.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/psion/oauth2/endpoints/authorization.py b/src/psion/oauth2/endpoints/authorization.py
index 1677152..e4428fc 100644
--- a/src/psion/oauth2/endpoints/authorization.py
+++ b/src/psion/oauth2/endpoints/authorization.py
@@ -126,7 +126,9 @@ class AuthorizationEndpoint(BaseEndpoint):
 
             # pylint: disable=E0601
             if not (scope := data.get("scope")) or not isinstance(scope, str):
-                raise InvalidRequest('Missing required parameter "scope".')
+                raise InvalidRequest(
+                    'Missing required parameter "scope".', state=data.get("state")
+                )
 
             scopes: list[str] = scope.split()
 
-- 
2.43.0


From dd0bce23bf30f4e67a8deec1a4641e7f0598fcb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:18 +0000
Subject: [PATCH 13/20] fix: answer a token request without a code with
 invalid_request

---
 src/psion/oauth2/grants/authorization_code.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/psion/oauth2/grants/authorization_code.py b/src/psion/oauth2/grants/authorization_code.py
index 3c22008..8ca9f61 100644
--- a/src/psion/oauth2/grants/authorization_code.py
+++ b/src/psion/oauth2/grants/authorization_code.py
@@ -317,7 +317,8 @@ class AuthorizationCodeGrant(BaseGrant):
         finally:
             # Prevents replay attacks by deleting the code once it is used,
             # whether it succeeds or fails.
-            await self.adapter.delete_authorization_code(data["code"])
+            if data.get("code"):
+                await self.adapter.delete_authorization_code(data["code"])
 
     async def _validate_token_request(self, data: dict) -> dict:
         """
-- 
2.43.0


From 5b0067c30cad3b6114564e16dc92262e57227c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:20 +0000
Subject: [PATCH 14/20] fix: fail the PKCE challenge of a non-ASCII code
 verifier

---
 src/psion/oauth2/grants/authorization_code.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/psion/oauth2/grants/authorization_code.py b/src/psion/oauth2/grants/authorization_code.py
index 8ca9f61..cd28190 100644
--- a/src/psion/oauth2/grants/authorization_code.py
+++ b/src/psion/oauth2/grants/authorization_code.py
@@ -22,9 +22,13 @@ def plain_challenge(challenge: str, verifier: str):
 
 
 def S256_challenge(challenge: str, verifier: str):
-    hashed_verifier = to_string(
-        base64url_encode(hashlib.sha256(to_bytes(verifier, "ascii")).digest())
-    )
+    try:
+        hashed_verifier = to_string(
+            base64url_encode(hashlib.sha256(to_bytes(verifier, "ascii")).digest())
+        )
+    except UnicodeEncodeError:
+        return False
+
     return challenge == hashed_verifier
 
 
-- 
2.43.0


From 351e0b84e882a9a8a4fa0255ac499586af747c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:22 +0000
Subject: [PATCH 15/20] fix: refuse to refresh the tokens of a user that no
 longer exists

---
 src/psion/oauth2/grants/refresh_token.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/psion/oauth2/grants/refresh_token.py b/src/psion/oauth2/grants/refresh_token.py
index cf9a536..a08108a 100644
--- a/src/psion/oauth2/grants/refresh_token.py
+++ b/src/psion/oauth2/grants/refresh_token.py
@@ -158,6 +158,10 @@ class RefreshTokenGrant(BaseGrant):
 
         user = await self.adapter.find_user(token.get_user_id())
 
+        if not user:
+            raise InvalidRequest(description="No user found for this token.")
+
+
         access_token = await self.adapter.create_access_token(client, user, scopes)
         refresh_token = (
             await self.adapter.create_refresh_token(client, user, scopes)
-- 
2.43.0


From dcecfb0b77271e2d83205f50f261930116681390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:24 +0000
Subject: [PATCH 16/20] fix: answer a revocation request without a token

---
 src/psion/oauth2/endpoints/revocation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psion/oauth2/endpoints/revocation.py b/src/psion/oauth2/endpoints/revocation.py
index 6721e61..2816f3d 100644
--- a/src/psion/oauth2/endpoints/revocation.py
+++ b/src/psion/oauth2/endpoints/revocation.py
@@ -111,7 +111,7 @@ class RevocationEndpoint(BaseEndpoint):
             token_type_hint: Optional[str] = data.get("token_type_hint")
 
             if not token or not isinstance(token, str):
-                return
+                return JSONResponse()
 
             if token_type_hint:
                 if token_type_hint not in self.__supported_tokens__:
-- 
2.43.0


From 418dd45500551500dfdc8d8613c795d669712c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:43 +0000
Subject: [PATCH 17/20] fix: keep the hooks of a grant apart from those of the
 other grants

---
 src/psion/oauth2/grants/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/psion/oauth2/grants/base.py b/src/psion/oauth2/grants/base.py
index 5b516e3..aceea64 100644
--- a/src/psion/oauth2/grants/base.py
+++ b/src/psion/oauth2/grants/base.py
@@ -59,6 +59,7 @@ class BaseGrant:
     def __init__(self, adapter: BaseAdapter, config: Config):
         self.adapter = adapter
         self.config = config
+        self.__hooks__ = {name: set(hooks) for name, hooks in self.__hooks__.items()}
 
     def _create_token(
         self,
-- 
2.43.0


From 74566c3cd9947a34469666142a7179d0eacddd26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:45 +0000
Subject: [PATCH 18/20] fix: issue an ID Token only for the exact scope openid

---
 src/psion/oidc/flows/authorization_code.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psion/oidc/flows/authorization_code.py b/src/psion/oidc/flows/authorization_code.py
index b047944..ac75b55 100644
--- a/src/psion/oidc/flows/authorization_code.py
+++ b/src/psion/oidc/flows/authorization_code.py
@@ -36,7 +36,7 @@ class AuthorizationCodeFlow:
     async def token_response(
         self, token: dict, data: dict, client: ClientMixin, user: UserMixin
     ) -> dict:
-        if "openid" in token["scope"]:
+        if "openid" in token.get("scope", "").split():
             id_token = await self._generate_id_token(token, client, user)
             return {"id_token": id_token}
 
-- 
2.43.0


From d0d0178cb6f94f1445e386ea3a3eb6397f027d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:47 +0000
Subject: [PATCH 19/20] fix: validate the claim auth_time of the ID Token

---
 src/psion/oidc/claims.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psion/oidc/claims.py b/src/psion/oidc/claims.py
index b63b99a..467356b 100644
--- a/src/psion/oidc/claims.py
+++ b/src/psion/oidc/claims.py
@@ -48,7 +48,7 @@ class IDToken(JsonWebTokenClaims):
         self._validate_nonce(claims)
 
     def _validate_auth_time(self, claims: dict) -> None:
-        auth_time = claims.get("max_age")
+        auth_time = claims.get("auth_time")
 
         if claims.get("max_age") and not auth_time:
             raise InvalidJWTClaim('Invalid claim "auth_time".')
-- 
2.43.0


From dfd1f857186ed075f1a9ed6663ea43174eb056f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:49 +0000
Subject: [PATCH 20/20] fix: return the nonce of the Authorization Request in
 the ID Token

---
 src/psion/oidc/flows/authorization_code.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/psion/oidc/flows/authorization_code.py b/src/psion/oidc/flows/authorization_code.py
index ac75b55..b705816 100644
--- a/src/psion/oidc/flows/authorization_code.py
+++ b/src/psion/oidc/flows/authorization_code.py
@@ -37,11 +37,13 @@ class AuthorizationCodeFlow:
         self, token: dict, data: dict, client: ClientMixin, user: UserMixin
     ) -> dict:
         if "openid" in token.get("scope", "").split():
-            id_token = await self._generate_id_token(token, client, user)
+            code = await self.adapter.get_authorization_code(data["code"])
+            nonce = code.get_nonce() if code else None
+            id_token = await self._generate_id_token(token, client, user, nonce)
             return {"id_token": id_token}
 
     async def _generate_id_token(
-        self, token: dict, client: ClientMixin, user: UserMixin
+        self, token: dict, client: ClientMixin, user: UserMixin, nonce: str = None
     ) -> str:
         """
         Generates an ID Token containing the claims of the currently authenticated User
@@ -59,6 +61,9 @@ class AuthorizationCodeFlow:
         :param user: Currently authenticated User.
         :type user:
 
+        :param nonce: Nonce of the Authorization Request, defaults to None.
+        :type nonce: str, optional
+
         :return: JWT encoded ID Token containing the claims
             requested by the Client about the User.
         :rtype: str
@@ -77,6 +82,7 @@ class AuthorizationCodeFlow:
                 "exp": now + self.config.id_token_lifespan,
                 "iat": now,
                 "at_hash": create_half_hash(token["access_token"], key_info["alg"]),
+                "nonce": nonce,
                 **userinfo,
             }
         )
-- 
2.43.0

