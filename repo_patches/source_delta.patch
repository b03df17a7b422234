From ba42b2f13961388602bc8c1bc6eeed42ca6a3792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:38 +0000
Subject: [PATCH 01/91] fix: introspection of an expired token or of a token
 whose session is gone is inactive

---
 src/oidcop/oauth2/introspection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/oauth2/introspection.py b/src/oidcop/oauth2/introspection.py
index c298c12..0fbdc73 100644
--- a/src/oidcop/oauth2/introspection.py
+++ b/src/oidcop/oauth2/introspection.py
@@ -5,6 +5,7 @@ from typing import Optional
 from oidcmsg import oauth2
 
 from oidcop.endpoint import Endpoint
+from oidcop.exception import ToOld
 from oidcop.token.exception import UnknownToken
 from oidcop.token.exception import WrongTokenClass
 
@@ -95,7 +96,7 @@ class Introspection(Endpoint):
             _session_info = _context.session_manager.get_session_info_by_token(
                 request_token, grant=True
             )
-        except (UnknownToken, WrongTokenClass):
+        except (UnknownToken, WrongTokenClass, ToOld, KeyError, ValueError):
             return {"response_args": _resp}
 
         grant = _session_info["grant"]
-- 
2.43.0


From 13d1a6afb1ba395cefe2da91c498ac0617d1785d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:38 +0000
Subject: [PATCH 02/91] fix: a user id that happens to be valid base64 is a
 plain user id

---
 src/oidcop/oauth2/authorization.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index 86b7ce8..3776691 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -518,13 +518,13 @@ class Authorization(Endpoint):
     def _unwrap_identity(self, identity):
         if isinstance(identity, dict):
             try:
-                _id = b64d(as_bytes(identity["uid"]))
-            except BadSyntax:
+                _id = json.loads(as_unicode(b64d(as_bytes(identity["uid"]))))
+            except (BadSyntax, ValueError):
                 return identity
-        else:
-            _id = b64d(as_bytes(identity))
+            # A plain user identifier can happen to be valid base64 (and JSON)
+            return _id if isinstance(_id, dict) else identity
 
-        return json.loads(as_unicode(_id))
+        return json.loads(as_unicode(b64d(as_bytes(identity))))
 
     def setup_auth(
         self,
-- 
2.43.0


From 7f55509f344bcb51749fa5ada08734017e97969a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:38 +0000
Subject: [PATCH 03/91] fix: revoking a grant revokes the tokens issued under
 it

---
 src/oidcop/session/grant.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/oidcop/session/grant.py b/src/oidcop/session/grant.py
index a7c6f8d..27fa38a 100644
--- a/src/oidcop/session/grant.py
+++ b/src/oidcop/session/grant.py
@@ -376,6 +376,13 @@ class Grant(Item):
                 if recursive:
                     self.revoke_token(based_on=t.value)
 
+    def revoke(self):
+        """
+        Revokes the grant and with it every token that has been issued under it.
+        """
+        Item.revoke(self)
+        self.revoke_token()
+
     def get_spec(self, token: SessionToken) -> Optional[dict]:
         if self.is_active() is False or token.is_active is False:
             return None
-- 
2.43.0


From 8cc14d1d1f25a79bf65f53896ca88c156a9c6402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:38 +0000
Subject: [PATCH 04/91] fix: allowed_scopes and scopes_to_claims are
 configuration parameters

---
 src/oidcop/configure.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/oidcop/configure.py b/src/oidcop/configure.py
index 06332d2..cd0b04f 100755
--- a/src/oidcop/configure.py
+++ b/src/oidcop/configure.py
@@ -95,6 +95,7 @@ class EntityConfiguration(Base):
     uris = ["issuer", "base_url"]
     parameter = {
         "add_on": None,
+        "allowed_scopes": [],
         "authz": None,
         "authentication": None,
         "base_url": "",
@@ -106,6 +107,7 @@ class EntityConfiguration(Base):
         "httpc_params": {},
         "issuer": "",
         "keys": None,
+        "scopes_to_claims": {},
         "session_params": None,
         "template_dir": None,
         "token_handler_args": {},
-- 
2.43.0


From f34a867878c0b938313b126facd15af94d75ff54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:16 +0000
Subject: [PATCH 05/91] fix: the documented code_challenge_method option of the
 pkce add-on is honoured

---
 src/oidcop/oidc/add_on/pkce.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/oidc/add_on/pkce.py b/src/oidcop/oidc/add_on/pkce.py
index 3e7fa05..0bf965a 100644
--- a/src/oidcop/oidc/add_on/pkce.py
+++ b/src/oidcop/oidc/add_on/pkce.py
@@ -139,7 +139,12 @@ def add_pkce_support(endpoint: Dict[str, Endpoint], **kwargs):
     authn_endpoint.post_parse_request.append(post_authn_parse)
     token_endpoint.post_parse_request.append(post_token_parse)
 
-    code_challenge_methods = kwargs.get("code_challenge_methods", CC_METHOD.keys())
+    code_challenge_methods = kwargs.get("code_challenge_methods")
+    if code_challenge_methods is None:
+        # The name and the format used in the documentation
+        code_challenge_methods = kwargs.pop("code_challenge_method", list(CC_METHOD.keys()))
+    if isinstance(code_challenge_methods, str):
+        code_challenge_methods = code_challenge_methods.split()
 
     kwargs["code_challenge_methods"] = {}
     for method in code_challenge_methods:
-- 
2.43.0


From 79e9555985b0f02145d3fffbee07684f755f29d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:57 +0000
Subject: [PATCH 06/91] fix: redirect URIs are matched exactly

---
 src/oidcop/oauth2/authorization.py | 110 +++++++++++++++++------------
 src/oidcop/util.py                 |   2 +-
 2 files changed, 65 insertions(+), 47 deletions(-)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index 3776691..f125807 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -3,9 +3,7 @@ import logging
 from typing import List
 from typing import Optional
 from typing import Union
-from urllib.parse import unquote
 from urllib.parse import urlencode
-from urllib.parse import urlparse
 
 from cryptojwt import BadSyntax
 from cryptojwt import as_unicode
@@ -116,13 +114,14 @@ def verify_uri(
     if _uri is None:
         raise ValueError(f"Wrong uri_type: {uri_type}")
 
-    _redirect_uri = unquote(_uri)
+    # The parsers below silently drop some characters, a URI can not contain them.
+    if any(c.isspace() or ord(c) < 33 for c in _uri):
+        raise URIError("Contains illegal characters")
 
-    part = urlparse(_redirect_uri)
-    if part.fragment:
+    if "#" in _uri:
         raise URIError("Contains fragment")
 
-    (_base, _query) = split_uri(_redirect_uri)
+    (_base, _query) = split_uri(_uri)
 
     # Get the clients registered redirect uris
     client_info = endpoint_context.cdb.get(_cid)
@@ -130,49 +129,65 @@ def verify_uri(
         raise KeyError("No such client")
 
     redirect_uris = client_info.get(f"{uri_type}s")
+    if redirect_uris is None and client_info.get(uri_type):
+        # There can be only one
+        redirect_uris = [client_info[uri_type]]
 
     if redirect_uris is None:
         raise RedirectURIError(f"No registered {uri_type} for {_cid}")
-    else:
-        match = False
-        for _item in redirect_uris:
-            if isinstance(_item, str):
-                regbase = _item
-                rquery = {}
+
+    error = None
+    for _item in redirect_uris:
+        if isinstance(_item, str):
+            regbase, rquery = split_uri(_item)
+        else:
+            regbase, rquery = _item
+
+        # The URI MUST exactly match one of the Redirection URI
+        if _base == regbase:
+            try:
+                verify_query(_query, rquery)
+            except ValueError as err:
+                # May still match another one with the same base
+                error = err
             else:
-                regbase, rquery = _item
-
-            # The URI MUST exactly match one of the Redirection URI
-            if _base == regbase:
-                # every registered query component must exist in the uri
-                if rquery:
-                    if not _query:
-                        raise ValueError("Missing query part")
-
-                    for key, vals in rquery.items():
-                        if key not in _query:
-                            raise ValueError('"{}" not in query part'.format(key))
-
-                        for val in vals:
-                            if val not in _query[key]:
-                                raise ValueError("{}={} value not in query part".format(key, val))
-
-                # and vice versa, every query component in the uri
-                # must be registered
-                if _query:
-                    if not rquery:
-                        raise ValueError("No registered query part")
-
-                    for key, vals in _query.items():
-                        if key not in rquery:
-                            raise ValueError('"{}" extra in query part'.format(key))
-                        for val in vals:
-                            if val not in rquery[key]:
-                                raise ValueError("Extra {}={} value in query part".format(key, val))
-                match = True
-                break
-        if not match:
-            raise RedirectURIError("Doesn't match any registered uris")
+                return
+
+    raise error or RedirectURIError("Doesn't match any registered uris")
+
+
+def verify_query(query, rquery):
+    """
+    Verify that a query part is exactly what has been registered.
+
+    :param query: The query part of the URI in the request as a dictionary
+    :param rquery: The registered query part as a dictionary
+    """
+    # every registered query component must exist in the uri
+    if rquery:
+        if not query:
+            raise ValueError("Missing query part")
+
+        for key, vals in rquery.items():
+            if key not in query:
+                raise ValueError('"{}" not in query part'.format(key))
+
+            for val in vals:
+                if val not in query[key]:
+                    raise ValueError("{}={} value not in query part".format(key, val))
+
+    # and vice versa, every query component in the uri
+    # must be registered
+    if query:
+        if not rquery:
+            raise ValueError("No registered query part")
+
+        for key, vals in query.items():
+            if key not in rquery:
+                raise ValueError('"{}" extra in query part'.format(key))
+            for val in vals:
+                if val not in rquery[key]:
+                    raise ValueError("Extra {}={} value in query part".format(key, val))
 
 
 def join_query(base, query):
@@ -212,7 +227,10 @@ def get_uri(endpoint_context, request, uri_type):
             if len(_specs) > 1:
                 raise ParameterError(f"Missing '{uri_type}' and more than one registered")
 
-            uri = join_query(*_specs[0])
+            if isinstance(_specs[0], str):
+                uri = _specs[0]
+            else:
+                uri = join_query(*_specs[0])
         else:
             raise UnknownClient(client_id)
 
diff --git a/src/oidcop/util.py b/src/oidcop/util.py
index 5800405..420527c 100755
--- a/src/oidcop/util.py
+++ b/src/oidcop/util.py
@@ -190,7 +190,7 @@ def split_uri(uri):
     if p.query:
         o = p._replace(query="")
         base = urlunsplit(o)
-        return base, parse_qs(p.query)
+        return base, parse_qs(p.query, keep_blank_values=True)
     else:
         base = urlunsplit(p)
         return base, ""
-- 
2.43.0


From 5b9daaa9b961e93aa83f96a9b212859e99a6cfbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:56 +0000
Subject: [PATCH 07/91] fix: state is appended properly to a post logout
 redirect URI that has a query part

---
 src/oidcop/oidc/session.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/oidc/session.py b/src/oidcop/oidc/session.py
index 79a7f9d..406110b 100644
--- a/src/oidcop/oidc/session.py
+++ b/src/oidcop/oidc/session.py
@@ -330,7 +330,8 @@ class Session(Endpoint):
 
         # redirect user to OP logout verification page
         if plur and "state" in request:
-            _uri = "{}?{}".format(_uri, urlencode({"state": request["state"]}))
+            _delim = "&" if "?" in _uri else "?"
+            _uri = "{}{}{}".format(_uri, _delim, urlencode({"state": request["state"]}))
             payload["state"] = request["state"]
 
         payload["redirect_uri"] = _uri
-- 
2.43.0


From 614f78face18f0f79b2abc6a49d8718117f2f4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:56 +0000
Subject: [PATCH 08/91] fix: no fragment in redirect URIs of native clients

---
 src/oidcop/oidc/registration.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/oidcop/oidc/registration.py b/src/oidcop/oidc/registration.py
index 529664a..99be2df 100755
--- a/src/oidcop/oidc/registration.py
+++ b/src/oidcop/oidc/registration.py
@@ -283,11 +283,13 @@ class Registration(Endpoint):
                 must_https = False
 
         for uri in registration_request["redirect_uris"]:
-            _custom = False
             p = urlparse(uri)
+            if "#" in uri:
+                raise InvalidRedirectURIError("redirect_uri contains fragment")
+
             if client_type == "native":
                 if p.scheme not in ["http", "https"]:  # Custom scheme
-                    _custom = True
+                    pass
                 elif p.scheme == "http" and p.hostname in ["localhost", "127.0.0.1"]:
                     pass
                 else:
@@ -305,17 +307,12 @@ class Registration(Endpoint):
             elif p.scheme not in ["http", "https"]:
                 # Custom scheme
                 raise InvalidRedirectURIError("Custom redirect_uri not allowed for web client")
-            elif p.fragment:
-                raise InvalidRedirectURIError("redirect_uri contains fragment")
 
-            if _custom:  # Can not verify a custom scheme
-                verified_redirect_uris.append((uri, {}))
+            base, query = split_uri(uri)
+            if query:
+                verified_redirect_uris.append((base, query))
             else:
-                base, query = split_uri(uri)
-                if query:
-                    verified_redirect_uris.append((base, query))
-                else:
-                    verified_redirect_uris.append((base, {}))
+                verified_redirect_uris.append((base, {}))
 
         return verified_redirect_uris
 
-- 
2.43.0


From 5c00cc03ce9b43795b944ef9369b9759fd372679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:06 +0000
Subject: [PATCH 09/91] fix: authorization responses are delivered complete and
 properly encoded

---
 src/oidcop/oauth2/authorization.py | 39 +++++++++++++++++++++++-------
 1 file changed, 30 insertions(+), 9 deletions(-)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index f125807..6ec6e14 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -1,3 +1,4 @@
+from html import escape
 import json
 import logging
 from typing import List
@@ -16,6 +17,7 @@ from oidcmsg import oauth2
 from oidcmsg.exception import ParameterError
 from oidcmsg.exception import URIError
 from oidcmsg.message import Message
+from oidcmsg.message import SINGLE_OPTIONAL_STRING
 from oidcmsg.oauth2 import AuthorizationRequest
 from oidcmsg.oidc import AuthorizationResponse
 from oidcmsg.oidc import verified_claim_name
@@ -25,6 +27,7 @@ from oidcop import rndstr
 from oidcop.authn_event import create_authn_event
 from oidcop.cookie_handler import compute_session_state
 from oidcop.endpoint import Endpoint
+from oidcop.endpoint import fragment_encoding
 from oidcop.endpoint_context import EndpointContext
 from oidcop.exception import InvalidRequest
 from oidcop.exception import NoSuchAuthentication
@@ -78,7 +81,7 @@ def inputs(form_args):
     for name, value in form_args.items():
         if name == "scope" and isinstance(value, list):
             value = " ".join(value)
-        element.append(html_field.format(name, value))
+        element.append(html_field.format(escape(str(name)), escape(str(value))))
     return "\n".join(element)
 
 
@@ -293,9 +296,18 @@ def check_unknown_scopes_policy(request_info, client_id, endpoint_context):
         raise UnAuthorizedClientScope()
 
 
+class AuthorizationResponseMessage(oauth2.AuthorizationResponse):
+    """
+    The response_type determines what is returned. There will not always be a code.
+    """
+
+    c_param = oauth2.AuthorizationResponse.c_param.copy()
+    c_param.update({"code": SINGLE_OPTIONAL_STRING})
+
+
 class Authorization(Endpoint):
     request_cls = oauth2.AuthorizationRequest
-    response_cls = oauth2.AuthorizationResponse
+    response_cls = AuthorizationResponseMessage
     error_cls = oauth2.AuthorizationErrorResponse
     request_format = "urlencoded"
     response_format = "urlencoded"
@@ -695,7 +707,7 @@ class Authorization(Endpoint):
                 if "return_type" in _args:
                     del _args["return_type"]
 
-            msg = FORM_POST.format(inputs=inputs(_args), action=return_uri)
+            msg = FORM_POST.format(inputs=inputs(_args), action=escape(return_uri))
             kwargs.update(
                 {
                     "response_msg": msg,
@@ -732,7 +744,10 @@ class Authorization(Endpoint):
         response_info = self.error_response(response_info, request, error, error_description)
         if "return_uri" not in response_info:
             response_info["return_uri"] = request["redirect_uri"]
-        response_info = self.response_mode(request, **response_info)
+        if "response_mode" in request:
+            response_info = self.response_mode(request, **response_info)
+        elif "fragment_enc" not in response_info:
+            response_info["fragment_enc"] = fragment_encoding(request["response_type"])
         return response_info
 
     def create_authn_response(self, request: Union[dict, Message], sid: str) -> dict:
@@ -754,8 +769,8 @@ class Authorization(Endpoint):
             _sinfo = _mngr.get_session_info(sid, grant=True)
 
             if request.get("scope"):
-                aresp["scope"] = _context.scopes_handler.filter_scopes(
-                    request["scope"], _sinfo["client_id"]
+                aresp["scope"] = " ".join(
+                    _context.scopes_handler.filter_scopes(request["scope"], _sinfo["client_id"])
                 )
 
             rtype = set(request["response_type"][:])
@@ -884,9 +899,9 @@ class Authorization(Endpoint):
 
         # Now about the response_mode. Should not be set if it's obvious
         # from the response_type. Knows about 'query', 'fragment' and
-        # 'form_post'.
+        # 'form_post'. A form is not constructed until all response arguments are known.
 
-        if "response_mode" in request:
+        if "response_mode" in request and request["response_mode"] != "form_post":
             try:
                 response_info = self.response_mode(request, **response_info)
             except InvalidRequest as err:
@@ -972,6 +987,10 @@ class Authorization(Endpoint):
             resp_info["response_args"]["iss"] = _context.issuer
             resp_info["response_args"]["client_id"] = request["client_id"]
 
+            if request.get("response_mode") == "form_post":
+                resp_info.setdefault("return_uri", request["redirect_uri"])
+                resp_info = self.response_mode(request, **resp_info)
+
         return resp_info
 
     def do_request_user(self, request_info, **kwargs):
@@ -1018,7 +1037,9 @@ class Authorization(Endpoint):
 
         if "error" in info:
             if "response_mode" in request:
-                return self.response_mode(request, info)
+                return_uri = info.pop("return_uri")
+                fragment_enc = fragment_encoding(info.pop("return_type"))
+                return self.response_mode(request, info, return_uri, fragment_enc)
             else:
                 return info
 
-- 
2.43.0


From 868cfe004202b19c7c787f36b32e6109236ba20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:07 +0000
Subject: [PATCH 10/91] fix: deleting from the session store deletes what was
 asked for, and its children

---
 src/oidcop/session/database.py | 62 ++++++++++++++++++----------------
 src/oidcop/session/manager.py  |  2 +-
 2 files changed, 34 insertions(+), 30 deletions(-)

diff --git a/src/oidcop/session/database.py b/src/oidcop/session/database.py
index 8f4e79e..c5b7182 100644
--- a/src/oidcop/session/database.py
+++ b/src/oidcop/session/database.py
@@ -128,43 +128,47 @@ class Database(ImpExp):
     def delete(self, path: List[str]):
         uid, client_id, grant_id = self._eval_path(path)
 
-        if uid not in self.db:
+        _uid_key = self.session_key(uid)
+        if _uid_key not in self.db:
             return
-        elif not client_id:
-            self.db.__delitem__(uid)
+
+        _user_info = self.db[_uid_key]
+        if not client_id:
+            _client_ids = list(_user_info.subordinate)
+        elif client_id in _user_info.subordinate:
+            _client_ids = [client_id]
+        else:
             return
 
-        _user_info = self.db[uid]
-        skey_uid_client = self.session_key(uid, client_id)
-        skey_uid_client_grant = self.session_key(uid, client_id, grant_id or "")
+        for _client_id in _client_ids:
+            _client_key = self.session_key(uid, _client_id)
+            if _client_key in self.db:
+                _client_info = self.db[_client_key]
+                if grant_id:
+                    if grant_id not in _client_info.subordinate:
+                        return
+                    _grant_ids = [grant_id]
+                else:
+                    _grant_ids = list(_client_info.subordinate)
 
-        if client_id not in _user_info.subordinate:
-            self.db.__delitem__(client_id)
-            return
+                for _grant_id in _grant_ids:
+                    _grant_key = self.session_key(uid, _client_id, _grant_id)
+                    if _grant_key in self.db:
+                        self.db.__delitem__(_grant_key)
+                    _client_info.subordinate.remove(_grant_id)
+
+                if len(_client_info.subordinate) > 0:
+                    self.db[_client_key] = _client_info
+                    continue
+
+                self.db.__delitem__(_client_key)
 
-        elif skey_uid_client in self.db:
-            _client_info = self.db[skey_uid_client]
-            if grant_id:
-                if skey_uid_client_grant in self.db:
-                    self.db.__delitem__(skey_uid_client_grant)
-                if grant_id in _client_info.subordinate:
-                    _client_info.subordinate.remove(grant_id)
-            else:
-                for grant_id in _client_info.subordinate:
-                    if skey_uid_client_grant in self.db:
-                        self.db.__delitem__(skey_uid_client_grant)
-                _client_info.subordinate = []
-
-            if len(_client_info.subordinate) == 0:
-                self.db.__delitem__(skey_uid_client)
-                _user_info.subordinate.remove(client_id)
-            else:
-                self.db[client_id] = _client_info
+            _user_info.subordinate.remove(_client_id)
 
         if len(_user_info.subordinate) == 0:
-            self.db.__delitem__(uid)
+            self.db.__delitem__(_uid_key)
         else:
-            self.db[uid] = _user_info
+            self.db[_uid_key] = _user_info
 
     def update(self, path: List[str], new_info: dict):
         _info = self.get(path)
diff --git a/src/oidcop/session/manager.py b/src/oidcop/session/manager.py
index 3bddebc..4813304 100644
--- a/src/oidcop/session/manager.py
+++ b/src/oidcop/session/manager.py
@@ -523,7 +523,7 @@ class SessionManager(Database):
         _grant = Grant(**args)
         self.set([user_id, client_id, _grant.id], _grant)
         _client_session_info = self.get([user_id, client_id])
-        _client_session_info.subordinate.append(_grant.id)
+        _client_session_info.add_subordinate(_grant.id)
         self.set([user_id, client_id], _client_session_info)
         return _grant
 
-- 
2.43.0


From cbae9bdcf3cf78fcf730f16f977d93886a020d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:27 +0000
Subject: [PATCH 11/91] fix: identifiers may contain the divider of session
 keys

---
 src/oidcop/session/database.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/oidcop/session/database.py b/src/oidcop/session/database.py
index c5b7182..6952bb1 100644
--- a/src/oidcop/session/database.py
+++ b/src/oidcop/session/database.py
@@ -82,17 +82,18 @@ class Database(ImpExp):
                 cid_info.add_subordinate(grant_id)
                 self.db[cid_key] = cid_info
 
-        userinfo = self.db.get(uid, UserSessionInfo())
+        uid_key = self.session_key(uid)
+        userinfo = self.db.get(uid_key, UserSessionInfo())
         if client_id is None:
-            self.db[uid] = value
+            self.db[uid_key] = value
         if client_id and client_id not in userinfo.subordinate:
             userinfo.add_subordinate(client_id)
-            self.db[uid] = userinfo
+            self.db[uid_key] = userinfo
 
     def get(self, path: List[str]) -> Union[SessionInfo, Grant]:
         uid, client_id, grant_id = self._eval_path(path)
         try:
-            user_info = self.db[uid]
+            user_info = self.db[self.session_key(uid)]
         except KeyError:
             raise KeyError("No such UserID")
         except TypeError:
@@ -177,10 +178,11 @@ class Database(ImpExp):
         self.set(path, _info)
 
     def session_key(self, *args):
-        return DIVIDER.join(args)
+        # An identifier must not contain anything that can be taken for the divider
+        return DIVIDER.join([arg.replace("%", "%25").replace(";", "%3B") for arg in args])
 
     def unpack_session_key(self, key):
-        return key.split(DIVIDER)
+        return [part.replace("%3B", ";").replace("%25", "%") for part in key.split(DIVIDER)]
 
     def encrypted_session_id(self, *args) -> str:
         rnd = rndstr(32)
-- 
2.43.0


From c9e9e9aa1ecce980cc0fefbb6622798223a49237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:27 +0000
Subject: [PATCH 12/91] fix: minted tokens do not leave stray entries in the
 session store

---
 src/oidcop/oauth2/authorization.py | 2 +-
 src/oidcop/oauth2/token.py         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index 6ec6e14..58d805d 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -374,7 +374,7 @@ class Authorization(Endpoint):
             token.expires_at = utc_time_sans_frac() + _exp_in
 
         _mngr = self.server_get("endpoint_context").session_manager
-        _mngr.set(_mngr.unpack_session_key(session_id), grant)
+        _mngr.set(_mngr.decrypt_session_id(session_id), grant)
 
         return token
 
diff --git a/src/oidcop/oauth2/token.py b/src/oidcop/oauth2/token.py
index bfee6df..c043269 100755
--- a/src/oidcop/oauth2/token.py
+++ b/src/oidcop/oauth2/token.py
@@ -91,7 +91,7 @@ class TokenEndpointHelper(object):
             if _exp_in:
                 token.expires_at = utc_time_sans_frac() + _exp_in
 
-        _context.session_manager.set(_context.session_manager.unpack_session_key(session_id), grant)
+        _mngr.set(_mngr.decrypt_session_id(session_id), grant)
 
         return token
 
-- 
2.43.0


From 9067bc0f4b09d0c5031acbae207b796a4621920c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:07 +0000
Subject: [PATCH 13/91] fix: errors for response_type none go in the query part

---
 src/oidcop/endpoint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcop/endpoint.py b/src/oidcop/endpoint.py
index 369940b..383e62e 100755
--- a/src/oidcop/endpoint.py
+++ b/src/oidcop/endpoint.py
@@ -72,7 +72,7 @@ def set_content_type(headers, content_type):
 
 
 def fragment_encoding(return_type):
-    if return_type == ["code"]:
+    if return_type in (["code"], ["none"]):
         return False
     else:
         return True
-- 
2.43.0


From 086fa594e9ab0a8d1addc3981152b7299b477028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:49 +0000
Subject: [PATCH 14/91] fix: session info with both grant and authentication
 event

---
 src/oidcop/session/manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcop/session/manager.py b/src/oidcop/session/manager.py
index 4813304..e19b8c2 100644
--- a/src/oidcop/session/manager.py
+++ b/src/oidcop/session/manager.py
@@ -454,7 +454,7 @@ class SessionManager(Database):
 
         if authentication_event:
             if grant:
-                res["authentication_event"] = res["grant"]["authentication_event"]
+                res["authentication_event"] = res["grant"].authentication_event
             else:
                 _grant = self.get([_user_id, _client_id, _grant_id])
                 res["authentication_event"] = _grant.authentication_event
-- 
2.43.0


From e5141a66a0c47cc85e9079f1f677b63f9d7d6809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:49 +0000
Subject: [PATCH 15/91] fix: containers keep leading and trailing blanks

---
 src/oidcop/util.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/oidcop/util.py b/src/oidcop/util.py
index 420527c..ed34f18 100755
--- a/src/oidcop/util.py
+++ b/src/oidcop/util.py
@@ -131,9 +131,9 @@ def lv_unpack(txt):
     :param txt: The input string
     :return: a list og values
     """
-    txt = txt.strip()
     res = []
-    while txt:
+    # Older containers may be padded with blanks
+    while txt.strip():
         l, v = txt.split(":", 1)
         res.append(v[: int(l)])
         txt = v[int(l):]
@@ -146,15 +146,11 @@ class Crypt(object):
         self.core = Fernet(self.key)
 
     def encrypt(self, text):
-        # Padding to block size of AES
-        text = as_bytes(text)
-        if len(text) % 16:
-            text += b" " * (16 - len(text) % 16)
+        # Fernet does the necessary padding
         return self.core.encrypt(as_bytes(text))
 
     def decrypt(self, ciphertext):
         dec_text = self.core.decrypt(ciphertext)
-        dec_text = dec_text.rstrip(b" ")
         return as_unicode(dec_text)
 
 
-- 
2.43.0


From a7ef44d916b6c2dfd3543587f04682b700d9b025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:59 +0000
Subject: [PATCH 16/91] fix: cookies round-trip whatever they contain and can
 not be shifted

---
 src/oidcop/cookie_handler.py | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/src/oidcop/cookie_handler.py b/src/oidcop/cookie_handler.py
index cb8130e..e1b500c 100755
--- a/src/oidcop/cookie_handler.py
+++ b/src/oidcop/cookie_handler.py
@@ -6,6 +6,8 @@ import time
 from typing import List
 from typing import Optional
 from typing import Union
+from urllib.parse import quote
+from urllib.parse import unquote
 from urllib.parse import urlparse
 
 from cryptography.exceptions import InvalidTag
@@ -41,6 +43,9 @@ class CookieHandler:
             **kwargs,
     ):
 
+        self.sign_key = None
+        self.enc_key = None
+
         if keys:
             key_jar = init_key_jar(**keys)
             _keys = key_jar.get_signing_key(key_type="oct", kid="sig")
@@ -55,16 +60,12 @@ class CookieHandler:
                     self.sign_key = sign_key
                 else:
                     self.sign_key = SYMKey(k=sign_key)
-            else:
-                self.sign_key = None
 
             if enc_key:
                 if isinstance(enc_key, SYMKey):
                     self.enc_key = enc_key
                 else:
                     self.enc_key = SYMKey(k=enc_key)
-            else:
-                self.enc_key = None
 
         self.sign_alg = sign_alg
 
@@ -88,6 +89,11 @@ class CookieHandler:
             },
         )
 
+    @staticmethod
+    def _to_be_signed(payload: str, timestamp: str) -> bytes:
+        # It must be clear where one ends and the other begins
+        return lv_pack(payload, timestamp).encode("utf-8")
+
     def _sign_enc_payload(self, payload: str, timestamp: Optional[Union[int, str]] = 0):
         """
         Creates signed and/or encrypted information.
@@ -109,7 +115,7 @@ class CookieHandler:
 
         if self.sign_key:
             signer = HMACSigner(algorithm=self.sign_alg)
-            mac = signer.sign(bytes_load + bytes_timestamp, self.sign_key.key)
+            mac = signer.sign(self._to_be_signed(payload, timestamp), self.sign_key.key)
         else:
             mac = b""
 
@@ -148,13 +154,18 @@ class CookieHandler:
 
         if parts is None:
             return None
-        elif len(parts) == 3:
+
+        if len(parts) > 3 and not self.enc_key:
+            # The payload may contain the divider
+            parts = [parts[0], "|".join(parts[1:-1]), parts[-1]]
+
+        if len(parts) == 3:
             # verify the cookie signature
             timestamp, payload, b64_mac = parts
             mac = base64.b64decode(b64_mac)
             verifier = HMACSigner(algorithm=self.sign_alg)
             if verifier.verify(
-                    payload.encode("utf-8") + timestamp.encode("utf-8"),
+                    self._to_be_signed(payload, timestamp),
                     mac,
                     self.sign_key.key,
             ):
@@ -179,7 +190,7 @@ class CookieHandler:
             if len(p) == 3:
                 verifier = HMACSigner(algorithm=self.sign_alg)
                 if verifier.verify(
-                        payload.encode("utf-8") + timestamp.encode("utf-8"),
+                        self._to_be_signed(payload, timestamp),
                         base64.b64decode(p[2]),
                         self.sign_key.key,
                 ):
@@ -217,6 +228,8 @@ class CookieHandler:
         if not value and not typ:
             _cookie_value = ""
         else:
+            # Only the value may contain the divider
+            typ = quote(typ, safe="")
             try:
                 cookie_payload = "::".join([value, typ])
             except TypeError:
@@ -261,8 +274,8 @@ class CookieHandler:
                 _content = self._ver_dec_content(_cookie["value"].split("|"))
                 if _content:
                     payload, timestamp = self._ver_dec_content(_cookie["value"].split("|"))
-                    value, typ = payload.split("::")
-                    res.append({"value": value, "type": typ, "timestamp": timestamp})
+                    value, typ = payload.rsplit("::", 1)
+                    res.append({"value": value, "type": unquote(typ), "timestamp": timestamp})
                 else:
                     LOGGER.debug(f"Could not verify {name} cookie")
         return res
-- 
2.43.0


From 7b5fdd3bef7ad109918b60c9b9cfe8c7785f9edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:29 +0000
Subject: [PATCH 17/91] fix: sessions get the kind of subject identifier the
 client registered

---
 src/oidcop/oauth2/authorization.py | 23 +++++++++++++++++++++++
 src/oidcop/session/manager.py      |  8 +++++++-
 2 files changed, 30 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index 58d805d..28cf04b 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -5,6 +5,7 @@ from typing import List
 from typing import Optional
 from typing import Union
 from urllib.parse import urlencode
+from urllib.parse import urlparse
 
 from cryptojwt import BadSyntax
 from cryptojwt import as_unicode
@@ -531,8 +532,29 @@ class Authorization(Endpoint):
             user_id=user_id,
             client_id=request["client_id"],
             token_usage_rules=_token_usage_rules,
+            **self._subject_args(request["client_id"]),
         )
 
+    def _subject_args(self, client_id: str) -> dict:
+        """
+        The kind of subject identifier the client has registered for.
+
+        :param client_id: Client identifier
+        :return: Arguments for the session manager
+        """
+        _cinfo = self.server_get("endpoint_context").cdb.get(client_id, {})
+        # The host of sector_identifier_uri or else of the redirect_uris
+        _sector = _cinfo.get("sector_id") or _cinfo.get("sector_identifier_uri")
+        if not _sector and _cinfo.get("redirect_uris"):
+            _sector = _cinfo["redirect_uris"][0]
+            if not isinstance(_sector, str):
+                _sector = _sector[0]
+        _sector = _sector or ""
+        return {
+            "sub_type": _cinfo.get("subject_type") or "public",
+            "sector_identifier": urlparse(_sector).hostname or _sector,
+        }
+
     def _login_required_error(self, redirect_uri, request):
         _res = {
             "error": "login_required",
@@ -671,6 +693,7 @@ class Authorization(Endpoint):
                             auth_req=request,
                             user_id=user,
                             client_id=request["client_id"],
+                            **self._subject_args(request["client_id"]),
                         )
 
         if _session_id:
diff --git a/src/oidcop/session/manager.py b/src/oidcop/session/manager.py
index e19b8c2..15c38bb 100644
--- a/src/oidcop/session/manager.py
+++ b/src/oidcop/session/manager.py
@@ -167,6 +167,7 @@ class SessionManager(Database):
         sub_type: Optional[str] = "public",
         token_usage_rules: Optional[dict] = None,
         scopes: Optional[list] = None,
+        sector_identifier: Optional[str] = None,
     ) -> str:
         """
 
@@ -177,9 +178,11 @@ class SessionManager(Database):
         :param client_id:
         :param sub_type:
         :param token_usage_rules:
+        :param sector_identifier: The sector the client belongs to
         :return:
         """
-        sector_identifier = auth_req.get("sector_identifier_uri", "")
+        if sector_identifier is None:
+            sector_identifier = auth_req.get("sector_identifier_uri", "")
 
         _claims = auth_req.get("claims", {})
 
@@ -207,6 +210,7 @@ class SessionManager(Database):
         sub_type: Optional[str] = "public",
         token_usage_rules: Optional[dict] = None,
         scopes: Optional[list] = None,
+        sector_identifier: Optional[str] = None,
     ) -> str:
         """
         Create part of a user session. The parts added are user- and client
@@ -219,6 +223,7 @@ class SessionManager(Database):
         :param user_id: User ID
         :param sub_type: What kind of subject will be assigned
         :param token_usage_rules: Rules for how tokens can be used
+        :param sector_identifier: The sector the client belongs to
         :return: Session key
         """
 
@@ -245,6 +250,7 @@ class SessionManager(Database):
             sub_type=sub_type,
             token_usage_rules=token_usage_rules,
             scopes=scopes,
+            sector_identifier=sector_identifier,
         )
 
     def __getitem__(self, session_id: str):
-- 
2.43.0


From 1196806f91fca4dcb5e6716efc0b009d0f5e94a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:42 +0000
Subject: [PATCH 18/91] fix: JWT tokens issued by someone else are not
 recognised

---
 src/oidcop/token/jwt_token.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/oidcop/token/jwt_token.py b/src/oidcop/token/jwt_token.py
index d865349..05c37e1 100644
--- a/src/oidcop/token/jwt_token.py
+++ b/src/oidcop/token/jwt_token.py
@@ -3,6 +3,7 @@ from typing import Optional
 
 from cryptojwt import JWT
 from cryptojwt.jws.exception import JWSException
+from cryptojwt.jws.jws import factory
 
 from oidcop.exception import ToOld
 from oidcop.token import Crypt
@@ -87,12 +88,20 @@ class JWTToken(Token):
 
     def get_payload(self, token):
         _context = self.server_get("endpoint_context")
+        # The tokens are signed, never encrypted.
+        if not factory(token):
+            raise UnknownToken()
+
         verifier = JWT(key_jar=_context.keyjar, allowed_sign_algs=[self.alg])
         try:
             _payload = verifier.unpack(token)
         except JWSException:
             raise UnknownToken()
 
+        # The key jar also contains keys belonging to other entities
+        if _payload.get("iss") != self.issuer:
+            raise UnknownToken()
+
         return _payload
 
     def info(self, token):
-- 
2.43.0


From dc5be966ef19f3b72d5263b123e2fe8dc49654f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:42 +0000
Subject: [PATCH 19/91] fix: ID tokens signed with the client secret, user
 claims do not replace protocol claims

---
 src/oidcop/session/grant.py  | 35 ++++++++++++++++++++++++++++++++++-
 src/oidcop/token/id_token.py | 18 +++++++++++++++---
 2 files changed, 49 insertions(+), 4 deletions(-)

diff --git a/src/oidcop/session/grant.py b/src/oidcop/session/grant.py
index 27fa38a..eca5d58 100644
--- a/src/oidcop/session/grant.py
+++ b/src/oidcop/session/grant.py
@@ -22,6 +22,32 @@ from oidcop.util import importer
 
 logger = logging.getLogger(__name__)
 
+# Statements about the token, the session or how the token is to be made.
+PROTOCOL_CLAIMS = [
+    "access_token",
+    "acr",
+    "at_hash",
+    "aud",
+    "auth_time",
+    "c_hash",
+    "client_id",
+    "cnf",
+    "code",
+    "encrypt",
+    "exp",
+    "iat",
+    "iss",
+    "jti",
+    "nbf",
+    "nonce",
+    "session_id",
+    "sid",
+    "sub",
+    "token_class",
+    "ttype",
+    "usage_rules",
+]
+
 
 class GrantMessage(ImpExp):
     parameter = {
@@ -237,7 +263,14 @@ class Grant(Item):
         )
         user_id, _, _ = endpoint_context.session_manager.decrypt_session_id(session_id)
         user_info = endpoint_context.claims_interface.get_user_claims(user_id, _claims_restriction)
-        payload.update(user_info)
+        # User claims can not replace protocol information
+        payload.update(
+            {
+                k: v
+                for k, v in user_info.items()
+                if k not in payload and k not in PROTOCOL_CLAIMS
+            }
+        )
 
         # Should I add the acr value
         if self.add_acr_value(claims_release_point):
diff --git a/src/oidcop/token/id_token.py b/src/oidcop/token/id_token.py
index e8555ef..7671e90 100755
--- a/src/oidcop/token/id_token.py
+++ b/src/oidcop/token/id_token.py
@@ -257,7 +257,10 @@ class IDToken(Token):
 
         _jwt = JWT(_context.keyjar, iss=_context.issuer, lifetime=lifetime, **alg_dict)
 
-        return _jwt.pack(_payload, recv=client_id)
+        # The key of a symmetric signing algorithm is the secret shared with the client
+        _issuer_id = client_id if alg_dict["sign_alg"].startswith("HS") else ""
+
+        return _jwt.pack(_payload, recv=client_id, issuer_id=_issuer_id)
 
     def __call__(
         self,
@@ -318,9 +321,18 @@ class IDToken(Token):
         client_info = _context.cdb[client_id]
         alg_dict = get_sign_and_encrypt_algorithms(_context, client_info, "id_token", sign=True)
 
-        verifier = JWT(key_jar=_context.keyjar, allowed_sign_algs=alg_dict["sign_alg"])
+        # Only this server issues ID Tokens
+        if _payload.get("iss") != _context.issuer:
+            raise UnknownToken()
+
+        verifier = factory(token, alg=alg_dict["sign_alg"])
+        if alg_dict["sign_alg"].startswith("HS"):
+            _keys = _context.keyjar.get_signing_key("oct", client_id)
+        else:
+            _keys = _context.keyjar.get_jwt_verify_keys(_jwt.jwt)
+
         try:
-            _payload = verifier.unpack(token)
+            _payload = verifier.verify_compact(token, _keys)
         except JWSException:
             raise UnknownToken()
 
-- 
2.43.0


From efeeae63d1a02a9e975444e4bf293acd15e43d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:32 +0000
Subject: [PATCH 20/91] fix: user claims can not replace token information in
 introspection responses

---
 src/oidcop/oauth2/introspection.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/oidcop/oauth2/introspection.py b/src/oidcop/oauth2/introspection.py
index 0fbdc73..57969d7 100644
--- a/src/oidcop/oauth2/introspection.py
+++ b/src/oidcop/oauth2/introspection.py
@@ -6,6 +6,7 @@ from oidcmsg import oauth2
 
 from oidcop.endpoint import Endpoint
 from oidcop.exception import ToOld
+from oidcop.session.grant import PROTOCOL_CLAIMS
 from oidcop.token.exception import UnknownToken
 from oidcop.token.exception import WrongTokenClass
 
@@ -121,8 +122,14 @@ class Introspection(Endpoint):
             user_info = _context.claims_interface.get_user_claims(
                 _session_info["user_id"], _claims_restriction
             )
-            if user_info:
-                _resp.update(user_info)
+            # User claims can not replace information about the token
+            _resp.update(
+                {
+                    k: v
+                    for k, v in user_info.items()
+                    if k not in _resp and k not in PROTOCOL_CLAIMS
+                }
+            )
 
         _resp["active"] = True
 
-- 
2.43.0


From 53f2c5e6dedb77ece00d9eb5c27b0dee3dfd5726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:32 +0000
Subject: [PATCH 21/91] fix: client specific claims configuration overrides and
 is not modified, claims requests with unknown members match

---
 src/oidcop/session/claims.py | 51 ++++++++++++++----------------------
 1 file changed, 20 insertions(+), 31 deletions(-)

diff --git a/src/oidcop/session/claims.py b/src/oidcop/session/claims.py
index bcea058..f9804c0 100755
--- a/src/oidcop/session/claims.py
+++ b/src/oidcop/session/claims.py
@@ -68,21 +68,21 @@ class ClaimsInterface:
     ):
         _context = self.server_get("endpoint_context")
         add_claims_by_scope = _context.cdb[client_id].get("add_claims", {}).get("by_scope", {})
-        if add_claims_by_scope:
-            _claims_by_scope = add_claims_by_scope.get(claims_release_point, False)
-            if not _claims_by_scope and secondary_identifier:
-                _claims_by_scope = add_claims_by_scope.get(secondary_identifier, False)
+        # What's specified for the client overrides the general configuration
+        _claims_by_scope = add_claims_by_scope.get(claims_release_point)
+        if not _claims_by_scope and secondary_identifier:
+            _claims_by_scope = add_claims_by_scope.get(secondary_identifier) or _claims_by_scope
 
-            if not _claims_by_scope:
-                _claims_by_scope = module.kwargs.get("add_claims_by_scope", {})
-        else:
+        if _claims_by_scope is None:
             _claims_by_scope = module.kwargs.get("add_claims_by_scope", {})
 
         add_claims_always = _context.cdb[client_id].get("add_claims", {}).get("always", {})
-        _always_add = add_claims_always.get(claims_release_point, [])
-        if secondary_identifier:
-            _always_2 = add_claims_always.get(secondary_identifier, [])
-            _always_add.extend(_always_2)
+        _always_add = {}
+        for _release_point in [secondary_identifier, claims_release_point]:
+            _always = add_claims_always.get(_release_point) or {}
+            if isinstance(_always, list):
+                _always = {k: None for k in _always}
+            _always_add.update(_always)
 
         return _claims_by_scope, _always_add
 
@@ -238,26 +238,15 @@ def claims_match(value: Union[str, int], claimspec: Optional[dict]) -> bool:
     if claimspec is None:  # match anything
         return True
 
-    matched = False
-    for key, val in claimspec.items():
-        if key == "value":
-            if value == val:
-                matched = True
-        elif key == "values":
-            if value in val:
-                matched = True
-        elif key == "essential":
-            # Whether it's essential or not doesn't change anything here
-            continue
-
-        if matched:
-            break
-
-    if matched is False:
-        if list(claimspec.keys()) == ["essential"]:
-            return True
-
-    return matched
+    # Only 'value' and 'values' restrict. Whether it's essential or not doesn't change anything
+    # here and members that are not understood MUST be ignored.
+    if "value" not in claimspec and "values" not in claimspec:
+        return True
+
+    if "value" in claimspec and value == claimspec["value"]:
+        return True
+
+    return "values" in claimspec and value in claimspec["values"]
 
 
 def by_schema(cls, **kwa):
-- 
2.43.0


From 011f40c7ea78768f9d3588d23e416408d82f416f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:43 +0000
Subject: [PATCH 22/91] fix: only client metadata is registered

---
 src/oidcop/oidc/registration.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/oidc/registration.py b/src/oidcop/oidc/registration.py
index 99be2df..55441fd 100755
--- a/src/oidcop/oidc/registration.py
+++ b/src/oidcop/oidc/registration.py
@@ -176,8 +176,11 @@ class Registration(Endpoint):
         _cinfo = _context.cdb[client_id].copy()
         logger.debug("_cinfo: %s" % sanitize(_cinfo))
 
+        # Only client metadata, and not things like the client secret or what the client is
+        # allowed to do, is for the client to decide on. May have a language tag.
+        _metadata = self.request_cls.c_param
         for key, val in request.items():
-            if key not in ignore:
+            if key not in ignore and key.split("#", 1)[0] in _metadata:
                 _cinfo[key] = val
 
         _uri = request.get("post_logout_redirect_uri")
-- 
2.43.0


From 703fa5b618c7bbfef3c764bb66868fb16a3b35e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:43 +0000
Subject: [PATCH 23/91] fix: redirect URIs of native clients must be absolute

---
 src/oidcop/oidc/registration.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/oidc/registration.py b/src/oidcop/oidc/registration.py
index 55441fd..6e58183 100755
--- a/src/oidcop/oidc/registration.py
+++ b/src/oidcop/oidc/registration.py
@@ -291,7 +291,9 @@ class Registration(Endpoint):
                 raise InvalidRedirectURIError("redirect_uri contains fragment")
 
             if client_type == "native":
-                if p.scheme not in ["http", "https"]:  # Custom scheme
+                if not p.scheme:
+                    raise InvalidRedirectURIError("Redirect_uri must be an absolute URI")
+                elif p.scheme not in ["http", "https"]:  # Custom scheme
                     pass
                 elif p.scheme == "http" and p.hostname in ["localhost", "127.0.0.1"]:
                     pass
-- 
2.43.0


From a1ebdd0598141c2164fe57d57beee5eb2327b237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:43 +0000
Subject: [PATCH 24/91] fix: a refused registration leaves nothing behind

---
 src/oidcop/oidc/registration.py | 45 +++++++++++++++++++++++++--------
 1 file changed, 35 insertions(+), 10 deletions(-)

diff --git a/src/oidcop/oidc/registration.py b/src/oidcop/oidc/registration.py
index 6e58183..a9fd317 100755
--- a/src/oidcop/oidc/registration.py
+++ b/src/oidcop/oidc/registration.py
@@ -384,6 +384,25 @@ class Registration(Endpoint):
 
         return client_secret
 
+    def undo_registration(self, client_id, old_cinfo=None):
+        """
+        Nothing must remain of a registration that was refused.
+
+        :param client_id: The client identifier that was to be registered
+        :param old_cinfo: What was registered about the client before
+        """
+        _context = self.server_get("endpoint_context")
+        _rat = _context.cdb[client_id].get("registration_access_token")
+        if _rat:
+            del _context.registration_access_token[_rat]
+
+        if old_cinfo is None:
+            del _context.cdb[client_id]
+            if client_id in _context.keyjar:
+                del _context.keyjar[client_id]
+        else:
+            _context.cdb[client_id] = old_cinfo
+
     def client_registration_setup(self, request, new_id=True, set_secret=True):
         try:
             request.verify()
@@ -435,19 +454,25 @@ class Registration(Endpoint):
 
         logger.debug("Stored client info in CDB under cid={}".format(client_id))
 
+        _old_cinfo = _context.cdb.get(client_id)
         _context.cdb[client_id] = _cinfo
-        _cinfo = self.do_client_registration(
-            request,
-            client_id,
-            ignore=["redirect_uris", "policy_uri", "logo_uri", "tos_uri"],
-        )
-        if isinstance(_cinfo, ResponseMessage):
-            return _cinfo
+        response = None
+        try:
+            _cinfo = self.do_client_registration(
+                request,
+                client_id,
+                ignore=["redirect_uris", "policy_uri", "logo_uri", "tos_uri"],
+            )
+            if isinstance(_cinfo, ResponseMessage):
+                return _cinfo
 
-        args = dict([(k, v) for k, v in _cinfo.items() if k in self.response_cls.c_param])
+            args = dict([(k, v) for k, v in _cinfo.items() if k in self.response_cls.c_param])
 
-        comb_uri(args)
-        response = self.response_cls(**args)
+            comb_uri(args)
+            response = self.response_cls(**args)
+        finally:
+            if response is None:
+                self.undo_registration(client_id, _old_cinfo)
 
         # Add the client_secret as a symmetric key to the key jar
         if client_secret:
-- 
2.43.0


From 6d5df4649a6f7d95d6889f7dbdd84d3fc969f8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:35 +0000
Subject: [PATCH 25/91] fix: the registered jwks is not modified when the keys
 are loaded

---
 src/oidcop/oidc/registration.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/oidc/registration.py b/src/oidcop/oidc/registration.py
index a9fd317..fb34054 100755
--- a/src/oidcop/oidc/registration.py
+++ b/src/oidcop/oidc/registration.py
@@ -1,3 +1,4 @@
+import copy
 import hashlib
 import hmac
 import json
@@ -260,7 +261,8 @@ class Registration(Endpoint):
 
         for item in ["jwks_uri", "jwks"]:
             if item in request:
-                t[item] = request[item]
+                # loading modifies
+                t[item] = copy.deepcopy(request[item])
 
         # if it can't load keys because the URL is false it will
         # just silently fail. Waiting for better times.
-- 
2.43.0


From 0b7c0f30c233a01c7a338a2ba402deb0b376ab7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:11 +0000
Subject: [PATCH 26/91] fix: the state of a server can be serialized as JSON

---
 src/oidcop/endpoint_context.py            |  8 +++++++-
 src/oidcop/oauth2/authorization.py        | 11 ++++++-----
 src/oidcop/oauth2/pushed_authorization.py |  7 ++++++-
 src/oidcop/oidc/add_on/pkce.py            |  4 ++--
 src/oidcop/user_authn/authn_context.py    |  6 ++----
 5 files changed, 23 insertions(+), 13 deletions(-)

diff --git a/src/oidcop/endpoint_context.py b/src/oidcop/endpoint_context.py
index fd13539..76da2a5 100755
--- a/src/oidcop/endpoint_context.py
+++ b/src/oidcop/endpoint_context.py
@@ -46,7 +46,7 @@ def init_user_info(conf, cwd: str):
 
 
 def init_service(conf, server_get=None):
-    kwargs = conf.get("kwargs", {})
+    kwargs = dict(conf.get("kwargs", {}))
 
     if server_get:
         kwargs["server_get"] = server_get
@@ -309,6 +309,12 @@ class EndpointContext(OidcContext):
                 else:
                     self._sub_func[key] = args["function"]
 
+    def local_load_adjustments(self, **kwargs):
+        # Loading creates a new session manager. How subject identifiers are constructed
+        # is part of the configuration and not of what is loaded.
+        if self.session_manager is not None:
+            self.session_manager.sub_func.update(self._sub_func)
+
     def create_providerinfo(self, capabilities):
         """
         Dynamically create the provider info response
diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index 28cf04b..3af96a5 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -41,6 +41,7 @@ from oidcop.exception import UnknownClient
 from oidcop.session import Revoked
 from oidcop.token.exception import UnknownToken
 from oidcop.user_authn.authn_context import pick_auth
+from oidcop.util import importer
 from oidcop.util import split_uri
 
 logger = logging.getLogger(__name__)
@@ -387,11 +388,11 @@ class Authorization(Endpoint):
             if _endp:
                 # Is it a UUID urn
                 if _request_uri.startswith("urn:uuid:"):
-                    _req = endpoint_context.par_db.get(_request_uri)
-                    if _req:
-                        # One time usage
-                        del endpoint_context.par_db[_request_uri]
-                        return _req
+                    # One time usage
+                    _par = endpoint_context.par_db.pop(_request_uri, None)
+                    if _par:
+                        _cls_name, _args = list(_par.items())[0]
+                        return importer(_cls_name)().from_dict(_args)
                     else:
                         raise ValueError("Got a request_uri I can not resolve")
 
diff --git a/src/oidcop/oauth2/pushed_authorization.py b/src/oidcop/oauth2/pushed_authorization.py
index d1f84f8..1b01415 100644
--- a/src/oidcop/oauth2/pushed_authorization.py
+++ b/src/oidcop/oauth2/pushed_authorization.py
@@ -1,5 +1,7 @@
 import uuid
 
+from cryptojwt.utils import qualified_name
+
 from oidcmsg import oauth2
 
 from oidcop.oauth2.authorization import Authorization
@@ -30,7 +32,10 @@ class PushedAuthorization(Authorization):
         # create URN
 
         _urn = "urn:uuid:{}".format(uuid.uuid4())
-        self.server_get("endpoint_context").par_db[_urn] = request
+        # In a form that can be serialized
+        self.server_get("endpoint_context").par_db[_urn] = {
+            qualified_name(request.__class__): request.to_dict()
+        }
 
         return {
             "http_response": {"request_uri": _urn, "expires_in": self.ttl},
diff --git a/src/oidcop/oidc/add_on/pkce.py b/src/oidcop/oidc/add_on/pkce.py
index 0bf965a..c9763b2 100644
--- a/src/oidcop/oidc/add_on/pkce.py
+++ b/src/oidcop/oidc/add_on/pkce.py
@@ -146,10 +146,10 @@ def add_pkce_support(endpoint: Dict[str, Endpoint], **kwargs):
     if isinstance(code_challenge_methods, str):
         code_challenge_methods = code_challenge_methods.split()
 
-    kwargs["code_challenge_methods"] = {}
     for method in code_challenge_methods:
         if method not in CC_METHOD:
             raise ValueError("Unsupported method: {}".format(method))
-        kwargs["code_challenge_methods"][method] = CC_METHOD[method]
+    # Only the names, such that the context can be serialized
+    kwargs["code_challenge_methods"] = list(code_challenge_methods)
 
     authn_endpoint.server_get("endpoint_context").args["pkce"] = kwargs
diff --git a/src/oidcop/user_authn/authn_context.py b/src/oidcop/user_authn/authn_context.py
index 8aa94df..4b16330 100755
--- a/src/oidcop/user_authn/authn_context.py
+++ b/src/oidcop/user_authn/authn_context.py
@@ -162,10 +162,8 @@ def pick_auth(endpoint_context, areq, pick_all=False):
 
 
 def init_method(authn_spec, server_get, template_handler=None):
-    try:
-        _args = authn_spec["kwargs"]
-    except KeyError:
-        _args = {}
+    # A copy since the configuration must not be modified
+    _args = dict(authn_spec.get("kwargs", {}))
 
     if "template" in _args:
         _args["template_handler"] = template_handler
-- 
2.43.0


From d0950decd15e37f0b0caa72240aaac396e689247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:11 +0000
Subject: [PATCH 27/91] fix: the token endpoint answers also when no access
 token may be minted

---
 src/oidcop/oauth2/token.py | 34 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/src/oidcop/oauth2/token.py b/src/oidcop/oauth2/token.py
index c043269..68febd2 100755
--- a/src/oidcop/oauth2/token.py
+++ b/src/oidcop/oauth2/token.py
@@ -467,24 +467,22 @@ class Token(Endpoint):
         if isinstance(response_args, ResponseMessage):
             return response_args
 
-        _access_token = response_args["access_token"]
-        _context = self.server_get("endpoint_context")
-        _session_info = _context.session_manager.get_session_info_by_token(
-            _access_token, grant=True
-        )
-
-        _cookie = _context.new_cookie(
-            name=_context.cookie_handler.name["session"],
-            sub=_session_info["grant"].sub,
-            sid=_context.session_manager.session_key(
-                _session_info["user_id"],
-                _session_info["client_id"],
-                _session_info["grant"].id,
-            ),
-        )
-
         _headers = [("Content-type", "application/json")]
         resp = {"response_args": response_args, "http_headers": _headers}
-        if _cookie:
-            resp["cookie"] = [_cookie]
+
+        # What is minted depends on the usage rules
+        _access_token = response_args.get("access_token")
+        if _access_token:
+            _context = self.server_get("endpoint_context")
+            _session_info = _context.session_manager.get_session_info_by_token(
+                _access_token, grant=True
+            )
+
+            _cookie = _context.new_cookie(
+                name=_context.cookie_handler.name["session"],
+                sub=_session_info["grant"].sub,
+                sid=_session_info["session_id"],
+            )
+            if _cookie:
+                resp["cookie"] = [_cookie]
         return resp
-- 
2.43.0


From aa6c85e2f47610799c20f1a5d126c23a8efd5302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:43 +0000
Subject: [PATCH 28/91] fix: a client that cannot be reached no longer keeps
 the others from being logged out

---
 src/oidcop/oidc/session.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/oidcop/oidc/session.py b/src/oidcop/oidc/session.py
index 406110b..f06d1c7 100644
--- a/src/oidcop/oidc/session.py
+++ b/src/oidcop/oidc/session.py
@@ -409,12 +409,17 @@ class Session(Endpoint):
                 _url, sjwt = spec
                 logger.info("logging out from {} at {}".format(_cid, _url))
 
-                res = _context.httpc.post(
-                    _url,
-                    data="logout_token={}".format(sjwt),
-                    headers={"Content-Type": "application/x-www-form-urlencoded"},
-                    **_context.httpc_params,
-                )
+                try:
+                    res = _context.httpc.post(
+                        _url,
+                        data="logout_token={}".format(sjwt),
+                        headers={"Content-Type": "application/x-www-form-urlencoded"},
+                        **_context.httpc_params,
+                    )
+                except Exception as err:
+                    # One client that can't be reached must not keep the others from being told
+                    logger.error("Could not reach {}: {}".format(_cid, err))
+                    continue
 
                 if res.status_code < 300:
                     logger.info("Logged out from {}".format(_cid))
-- 
2.43.0


From 4e3047fdb039a572289b2d4fcc9300e2152a290f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:43 +0000
Subject: [PATCH 29/91] fix: client_id in an end session request must be that
 of the session

---
 src/oidcop/oidc/session.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/oidcop/oidc/session.py b/src/oidcop/oidc/session.py
index f06d1c7..a5a7c58 100644
--- a/src/oidcop/oidc/session.py
+++ b/src/oidcop/oidc/session.py
@@ -304,6 +304,9 @@ class Session(Endpoint):
 
         # _context.cdb[_session_info["client_id"]]
 
+        if request.get("client_id", _session_info["client_id"]) != _session_info["client_id"]:
+            raise ValueError("Client ID doesn't match")
+
         # verify that the post_logout_redirect_uri if present are among the ones
         # registered
 
-- 
2.43.0


From 86c391db3af102459143fc8291ed4bd010383752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:43 +0000
Subject: [PATCH 30/91] fix: id_token_hint must be issued by this server

---
 src/oidcop/oidc/session.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/oidcop/oidc/session.py b/src/oidcop/oidc/session.py
index a5a7c58..88c468a 100644
--- a/src/oidcop/oidc/session.py
+++ b/src/oidcop/oidc/session.py
@@ -293,6 +293,9 @@ class Session(Endpoint):
             _id_token = request[verified_claim_name("id_token_hint")]
             logger.debug("ID token hint: {}".format(_id_token))
 
+            if _id_token["iss"] != _context.issuer:
+                raise ValueError("Issuer doesn't match")
+
             _aud = _id_token["aud"]
             if _session_info["client_id"] not in _aud:
                 raise ValueError("Client ID doesn't match")
-- 
2.43.0


From 4fb586e433c0b55f5b74eb2ead19c575d8fa0564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:43 +0000
Subject: [PATCH 31/91] fix: only the server's own confirmation is accepted at
 verify_logout

---
 src/oidcop/oidc/session.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/oidcop/oidc/session.py b/src/oidcop/oidc/session.py
index 88c468a..fe944ed 100644
--- a/src/oidcop/oidc/session.py
+++ b/src/oidcop/oidc/session.py
@@ -23,6 +23,7 @@ from oidcmsg.oauth2 import ResponseMessage
 from oidcmsg.oidc import verified_claim_name
 from oidcmsg.oidc.session import BACK_CHANNEL_LOGOUT_EVENT
 from oidcmsg.oidc.session import EndSessionRequest
+from oidcmsg.time_util import utc_time_sans_frac
 
 from oidcop import rndstr
 from oidcop.client_authn import UnknownOrNoAuthnMethod
@@ -219,6 +220,19 @@ class Session(Endpoint):
 
             sign_keys = self.server_get("endpoint_context").keyjar.get_signing_key(alg2keytype(alg))
             _info = _jwt.verify_compact(keys=sign_keys, sigalg=alg)
+
+            if not sig_alg:
+                # This must be the confirmation process_request made. The same key may have
+                # been used to sign other things, like access tokens.
+                _issuer = self.server_get("endpoint_context").issuer
+                if (
+                    _info.get("iss") != _issuer
+                    or _issuer not in _info.get("aud", [])
+                    or "redirect_uri" not in _info
+                ):
+                    raise ValueError("Not a logout confirmation")
+                if _info.get("exp", 0) < utc_time_sans_frac():
+                    raise ValueError("The logout confirmation has expired")
             return _info
         else:
             raise ValueError("Not a signed JWT")
-- 
2.43.0


From 857f8c2d0d1f7bbe53f1471eecf3ba27d4d73fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:43 +0000
Subject: [PATCH 32/91] fix: logout from all clients ends the chosen session
 also when its client can't be notified

---
 src/oidcop/oidc/session.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/oidc/session.py b/src/oidcop/oidc/session.py
index fe944ed..af6291a 100644
--- a/src/oidcop/oidc/session.py
+++ b/src/oidcop/oidc/session.py
@@ -166,7 +166,8 @@ class Session(Endpoint):
 
         bc_logouts = {}
         fc_iframes = {}
-        _rel_sid = []
+        # The session the user wants to leave ends even if its client isn't notified
+        _rel_sid = [sid]
         for _client_id in _session_info["user_session_info"].subordinate:
             # I prefer back-channel. Should it be configurable ?
             if "backchannel_logout_uri" in _cdb[_client_id]:
-- 
2.43.0


From 2e82568b07c64b200d5d1df0dbe6958def1707bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:43 +0000
Subject: [PATCH 33/91] fix: logout tokens for clients using HS algorithms are
 signed with their secret

---
 src/oidcop/oidc/session.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/oidc/session.py b/src/oidcop/oidc/session.py
index af6291a..dd1c8c4 100644
--- a/src/oidcop/oidc/session.py
+++ b/src/oidcop/oidc/session.py
@@ -138,7 +138,11 @@ class Session(Endpoint):
 
         _jws = JWT(_context.keyjar, iss=_context.issuer, lifetime=86400, sign_alg=alg)
         _jws.with_jti = True
-        _logout_token = _jws.pack(payload=payload, recv=cinfo["client_id"])
+        # The key of a symmetric signing algorithm is the secret shared with the client
+        _issuer_id = cinfo["client_id"] if alg.startswith("HS") else ""
+        _logout_token = _jws.pack(
+            payload=payload, recv=cinfo["client_id"], issuer_id=_issuer_id
+        )
 
         return back_channel_logout_uri, _logout_token
 
-- 
2.43.0


From 7783b4af7362a2c7e624e01582c0e861adf65343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:43 +0000
Subject: [PATCH 34/91] fix: frontchannel logout URIs keep blank query values

---
 src/oidcop/oidc/session.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcop/oidc/session.py b/src/oidcop/oidc/session.py
index dd1c8c4..6896ae0 100644
--- a/src/oidcop/oidc/session.py
+++ b/src/oidcop/oidc/session.py
@@ -58,7 +58,7 @@ def do_front_channel_logout_iframe(cinfo, iss, sid):
         _query = {"iss": iss, "sid": sid}
         if "?" in frontchannel_logout_uri:
             p = urlparse(frontchannel_logout_uri)
-            _args = parse_qs(p.query)
+            _args = parse_qs(p.query, keep_blank_values=True)
             _args.update(_query)
             _query = _args
             _np = p._replace(query="")
-- 
2.43.0


From 35ce472c0711a15bfa27559823389eb25103d887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:35 +0000
Subject: [PATCH 35/91] fix: a client's usage rules are copied before tokens
 use them

---
 src/oidcop/authz/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/authz/__init__.py b/src/oidcop/authz/__init__.py
index 72b6979..c610ccf 100755
--- a/src/oidcop/authz/__init__.py
+++ b/src/oidcop/authz/__init__.py
@@ -30,7 +30,9 @@ class AuthzHandling(object):
             return _usage_rules
 
         try:
-            _per_client = self.server_get("endpoint_context").cdb[client_id]["token_usage_rules"]
+            _per_client = copy.deepcopy(
+                self.server_get("endpoint_context").cdb[client_id]["token_usage_rules"]
+            )
         except KeyError:
             pass
         else:
-- 
2.43.0


From d3ea657052ce44db23613fad65896ec52ddbf5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:48 +0000
Subject: [PATCH 36/91] fix: minting that is not allowed is an error response

---
 src/oidcop/oauth2/token.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/oidcop/oauth2/token.py b/src/oidcop/oauth2/token.py
index 68febd2..ab82262 100755
--- a/src/oidcop/oauth2/token.py
+++ b/src/oidcop/oauth2/token.py
@@ -463,6 +463,8 @@ class Token(Endpoint):
                 )
         except JWEException as err:
             return self.error_cls(error="invalid_request", error_description="%s" % err)
+        except MintingNotAllowed as err:
+            return self.error_cls(error="invalid_grant", error_description="%s" % err)
 
         if isinstance(response_args, ResponseMessage):
             return response_args
-- 
2.43.0


From d8dc921bc83d56709b65f43e8463868683f64aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:48 +0000
Subject: [PATCH 37/91] fix: without a rule the announced lifetime is the one
 in the token

---
 src/oidcop/oauth2/token.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/oauth2/token.py b/src/oidcop/oauth2/token.py
index ab82262..70f9243 100755
--- a/src/oidcop/oauth2/token.py
+++ b/src/oidcop/oauth2/token.py
@@ -61,7 +61,10 @@ class TokenEndpointHelper(object):
         if usage_rules:
             _exp_in = usage_rules.get("expires_in")
         else:
-            _exp_in = DEFAULT_TOKEN_LIFETIME
+            # The same lifetime as the handler will put into the token
+            _exp_in = getattr(
+                _mngr.token_handler[token_class], "lifetime", DEFAULT_TOKEN_LIFETIME
+            )
 
         token_args = token_args or {}
         for meth in _context.token_args_methods:
-- 
2.43.0


From 79253042137c454fd10e727e81ce608cdfc00dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:48 +0000
Subject: [PATCH 38/91] fix: an expires_in of -1 means a token never expires

---
 src/oidcop/oauth2/authorization.py |  2 +-
 src/oidcop/oauth2/token.py         |  2 +-
 src/oidcop/token/jwt_token.py      | 10 +++++++---
 3 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index 3af96a5..3bb4659 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -372,7 +372,7 @@ class Authorization(Endpoint):
         _exp_in = usage_rules.get("expires_in")
         if isinstance(_exp_in, str):
             _exp_in = int(_exp_in)
-        if _exp_in:
+        if _exp_in and _exp_in > 0:  # A negative value means the token never expires
             token.expires_at = utc_time_sans_frac() + _exp_in
 
         _mngr = self.server_get("endpoint_context").session_manager
diff --git a/src/oidcop/oauth2/token.py b/src/oidcop/oauth2/token.py
index 70f9243..056ddc3 100755
--- a/src/oidcop/oauth2/token.py
+++ b/src/oidcop/oauth2/token.py
@@ -91,7 +91,7 @@ class TokenEndpointHelper(object):
             if isinstance(_exp_in, str):
                 _exp_in = int(_exp_in)
 
-            if _exp_in:
+            if _exp_in > 0:  # A negative value means the token never expires
                 token.expires_at = utc_time_sans_frac() + _exp_in
 
         _mngr.set(_mngr.decrypt_session_id(session_id), grant)
diff --git a/src/oidcop/token/jwt_token.py b/src/oidcop/token/jwt_token.py
index 05c37e1..83995ee 100644
--- a/src/oidcop/token/jwt_token.py
+++ b/src/oidcop/token/jwt_token.py
@@ -74,9 +74,11 @@ class JWTToken(Token):
         # payload.update(kwargs)
         _context = self.server_get("endpoint_context")
         if usage_rules and "expires_in" in usage_rules:
-            lifetime = usage_rules.get("expires_in")
+            lifetime = int(usage_rules.get("expires_in"))
         else:
             lifetime = self.lifetime
+        if lifetime < 0:  # The token never expires
+            lifetime = 0
         signer = JWT(
             key_jar=_context.keyjar,
             iss=self.issuer,
@@ -122,13 +124,13 @@ class JWTToken(Token):
         else:
             _payload["token_class"] = self.token_class
 
-        if is_expired(_payload["exp"]):
+        if "exp" in _payload and is_expired(_payload["exp"]):
             raise ToOld("Token has expired")
         # All the token metadata
         _res = {
             "sid": _payload["sid"],
             "token_class": _payload["token_class"],
-            "exp": _payload["exp"],
+            "exp": _payload.get("exp"),
             "handler": self,
         }
         return _res
@@ -142,6 +144,8 @@ class JWTToken(Token):
         :return: True/False
         """
         _payload = self.get_payload(token)
+        if "exp" not in _payload:
+            return False
         return is_expired(_payload["exp"], when)
 
     def gather_args(self, sid, sdb, udb):
-- 
2.43.0


From e79701a028ab26eb7ab9381b0582251282918e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:48 +0000
Subject: [PATCH 39/91] fix: the client's usage rules also apply to grants made
 by single sign-on

---
 src/oidcop/oauth2/authorization.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index 3bb4659..df96b1c 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -694,6 +694,7 @@ class Authorization(Endpoint):
                             auth_req=request,
                             user_id=user,
                             client_id=request["client_id"],
+                            token_usage_rules=_context.authz.usage_rules(request["client_id"]),
                             **self._subject_args(request["client_id"]),
                         )
 
-- 
2.43.0


From c32e81ef0fd7ae683725216e347fe694bece480f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:48 +0000
Subject: [PATCH 40/91] fix: the usage rules' lifetime of ID tokens is honoured

---
 src/oidcop/token/id_token.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/token/id_token.py b/src/oidcop/token/id_token.py
index 7671e90..83258e9 100755
--- a/src/oidcop/token/id_token.py
+++ b/src/oidcop/token/id_token.py
@@ -285,7 +285,10 @@ class IDToken(Token):
         else:
             xargs = {}
 
-        lifetime = self.lifetime
+        if usage_rules and int(usage_rules.get("expires_in", 0)) > 0:
+            lifetime = int(usage_rules["expires_in"])
+        else:
+            lifetime = self.lifetime
 
         id_token = self.sign_encrypt(
             session_id,
-- 
2.43.0


From 8d8ea4007f06cb99470c1aaddb80a3d9dfbc1cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:48 +0000
Subject: [PATCH 41/91] fix: introspection leaves out exp of tokens that do not
 expire

---
 src/oidcop/oauth2/introspection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/oauth2/introspection.py b/src/oidcop/oauth2/introspection.py
index 57969d7..53c26fe 100644
--- a/src/oidcop/oauth2/introspection.py
+++ b/src/oidcop/oauth2/introspection.py
@@ -51,11 +51,12 @@ class Introspection(Endpoint):
             "scope": " ".join(scope),
             "client_id": client_id,
             "token_class": token.token_class,
-            "exp": token.expires_at,
             "iat": token.issued_at,
             "sub": grant.sub,
             "iss": _context.issuer,
         }
+        if token.expires_at:  # otherwise it doesn't expire
+            ret["exp"] = token.expires_at
 
         try:
             _token_type = token.token_type
-- 
2.43.0


From 957f268502b469e65a367359225439f07e28dbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:19 +0000
Subject: [PATCH 42/91] fix: a pushed request may not hold a request_uri and
 errors are returned

---
 src/oidcop/oauth2/pushed_authorization.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/oidcop/oauth2/pushed_authorization.py b/src/oidcop/oauth2/pushed_authorization.py
index 1b01415..83d9126 100644
--- a/src/oidcop/oauth2/pushed_authorization.py
+++ b/src/oidcop/oauth2/pushed_authorization.py
@@ -23,12 +23,25 @@ class PushedAuthorization(Authorization):
         self.post_parse_request.append(self._post_parse_request)
         self.ttl = kwargs.get("ttl", 3600)
 
+    def _do_request_uri(self, request, client_id, endpoint_context, **kwargs):
+        # A request_uri can not be pushed
+        if request.get("request_uri"):
+            return self.authentication_error_response(
+                request,
+                error="invalid_request",
+                error_description="request_uri is not allowed in a pushed request",
+            )
+        return request
+
     def process_request(self, request=None, **kwargs):
         """
         Store the request and return a URI.
 
         :param request:
         """
+        if isinstance(request, self.error_cls):
+            return request
+
         # create URN
 
         _urn = "urn:uuid:{}".format(uuid.uuid4())
-- 
2.43.0


From 4dfd224eec3fd5bb1faeb4f6259333f1c4caedb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:19 +0000
Subject: [PATCH 43/91] fix: require_request_uri_registration is enforced

---
 src/oidcop/oauth2/authorization.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index df96b1c..482854d 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -408,6 +408,8 @@ class Authorization(Endpoint):
                 # ignore registered fragments for now.
                 if _p[0] not in [base for base, qp in _registered]:
                     raise ValueError("A request_uri outside the registered")
+            elif endpoint_context.provider_info.get("require_request_uri_registration"):
+                raise ValueError("A request_uri that is not registered")
 
             # Fetch the request
             _resp = endpoint_context.httpc.get(_request_uri, **endpoint_context.httpc_params)
-- 
2.43.0


From dbf56aa7f943f7c699ee5275f4651dabff7e578c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:19 +0000
Subject: [PATCH 44/91] fix: request objects must be signed by the client they
 are for

---
 src/oidcop/oauth2/authorization.py | 98 ++++++++++++++++++++++++------
 1 file changed, 78 insertions(+), 20 deletions(-)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index 482854d..fe4b75d 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -15,6 +15,8 @@ from cryptojwt.jws.exception import NoSuitableSigningKeys
 from cryptojwt.utils import as_bytes
 from cryptojwt.utils import b64e
 from oidcmsg import oauth2
+from oidcmsg.exception import MissingRequiredAttribute
+from oidcmsg.exception import MissingRequiredValue
 from oidcmsg.exception import ParameterError
 from oidcmsg.exception import URIError
 from oidcmsg.message import Message
@@ -331,6 +333,7 @@ class Authorization(Endpoint):
 
     def __init__(self, server_get, **kwargs):
         Endpoint.__init__(self, server_get, **kwargs)
+        self.post_parse_request.append(self._verify_request_object)
         self.post_parse_request.append(self._do_request_uri)
         self.post_parse_request.append(self._post_parse_request)
         self.allowed_request_algorithms = AllowedAlgorithms(ALG_PARAMS)
@@ -380,6 +383,67 @@ class Authorization(Endpoint):
 
         return token
 
+    def _check_request_object(self, request_object, client_id, endpoint_context):
+        """
+        The signature has been verified. What remains is to make sure that it was made by the
+        client and that the algorithms are the ones the client may use.
+
+        :param request_object: A verified request object
+        """
+        if request_object.jws_header is None:
+            raise ValueError("The request object is not signed")
+
+        self.allowed_request_algorithms(
+            client_id,
+            endpoint_context,
+            request_object.jws_header.get("alg", "RS256"),
+            "sign",
+        )
+        if request_object.jwe_header is not None:
+            self.allowed_request_algorithms(
+                client_id, endpoint_context, request_object.jwe_header.get("alg"), "enc_alg",
+            )
+            self.allowed_request_algorithms(
+                client_id, endpoint_context, request_object.jwe_header.get("enc"), "enc_enc",
+            )
+
+        # The keys that were used to verify the signature belong to the issuer
+        if request_object.get("iss", client_id) != client_id:
+            raise ValueError("The request object was not issued by the client")
+
+    def _verify_request_object(self, request, client_id, endpoint_context, **kwargs):
+        _request_object = request.get(verified_claim_name("request"))
+        if isinstance(_request_object, Message):
+            try:
+                self._check_request_object(_request_object, client_id, endpoint_context)
+            except ValueError as err:
+                return self.authentication_error_response(
+                    request, error="invalid_request_object", error_description=f"{err}"
+                )
+            if "client_id" not in request:
+                request["client_id"] = client_id
+
+        return request
+
+    def _from_pushed_request(self, pushed, request_uri, client_id, endpoint_context):
+        """
+        A pushed request must follow the same rules as one that comes directly from the client
+        """
+        # A request object was dealt with when the request was pushed.
+        _args = {
+            k: v
+            for k, v in pushed.to_dict().items()
+            if k not in ["request", verified_claim_name("request")]
+        }
+        # It came by reference
+        request = self.request_cls(request_uri=request_uri, **_args)
+        try:
+            request.verify(keyjar=endpoint_context.keyjar, opponent_id=client_id)
+        except (MissingRequiredAttribute, ValueError, MissingRequiredValue) as err:
+            return self.process_verify_error(err)
+        del request["request_uri"]
+        return request
+
     def _do_request_uri(self, request, client_id, endpoint_context, **kwargs):
         _request_uri = request.get("request_uri")
         if _request_uri:
@@ -416,32 +480,20 @@ class Authorization(Endpoint):
             if _resp.status_code == 200:
                 args = {"keyjar": endpoint_context.keyjar, "issuer": client_id}
                 _ver_request = self.request_cls().from_jwt(_resp.text, **args)
-                self.allowed_request_algorithms(
-                    client_id,
-                    endpoint_context,
-                    _ver_request.jws_header.get("alg", "RS256"),
-                    "sign",
-                )
-                if _ver_request.jwe_header is not None:
-                    self.allowed_request_algorithms(
-                        client_id,
-                        endpoint_context,
-                        _ver_request.jws_header.get("alg"),
-                        "enc_alg",
-                    )
-                    self.allowed_request_algorithms(
-                        client_id,
-                        endpoint_context,
-                        _ver_request.jws_header.get("enc"),
-                        "enc_enc",
-                    )
+                self._check_request_object(_ver_request, client_id, endpoint_context)
                 # The protected info overwrites the non-protected
                 for k, v in _ver_request.items():
                     request[k] = v
 
+                # What the request object added must follow the rules too
+                try:
+                    request.verify(keyjar=endpoint_context.keyjar, opponent_id=client_id)
+                except (MissingRequiredAttribute, ValueError, MissingRequiredValue) as err:
+                    return self.process_verify_error(err)
+
                 request[verified_claim_name("request")] = _ver_request
             else:
-                raise ServiceError("Got a %s response", _resp.status)
+                raise ServiceError("Got a %s response", _resp.status_code)
 
         return request
 
@@ -463,6 +515,12 @@ class Authorization(Endpoint):
 
         request = self.filter_request(endpoint_context, request)
 
+        # A request object must not change which client this is about
+        if request.get("client_id", client_id) != client_id:
+            return self.authentication_error_response(
+                request, error="invalid_request", error_description="Client ID doesn't match"
+            )
+
         _cinfo = endpoint_context.cdb.get(client_id)
         if not _cinfo:
             logger.error("Client ID ({}) not in client database".format(request["client_id"]))
-- 
2.43.0


From 704987a38bcb2c1ab59bc078a15d963951063511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:19 +0000
Subject: [PATCH 45/91] fix: a pushed request is bound to the client and
 expires

---
 src/oidcop/oauth2/authorization.py        | 10 +++++++++-
 src/oidcop/oauth2/pushed_authorization.py |  4 +++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index fe4b75d..3ca265f 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -455,8 +455,16 @@ class Authorization(Endpoint):
                     # One time usage
                     _par = endpoint_context.par_db.pop(_request_uri, None)
                     if _par:
+                        _expires_at = _par.pop("expires_at", 0)
                         _cls_name, _args = list(_par.items())[0]
-                        return importer(_cls_name)().from_dict(_args)
+                        if _expires_at and utc_time_sans_frac() > _expires_at:
+                            raise ValueError("The pushed request has expired")
+                        if _args.get("client_id") != client_id:
+                            raise ValueError("The request was pushed by another client")
+                        _pushed = importer(_cls_name)().from_dict(_args)
+                        return self._from_pushed_request(
+                            _pushed, _request_uri, client_id, endpoint_context
+                        )
                     else:
                         raise ValueError("Got a request_uri I can not resolve")
 
diff --git a/src/oidcop/oauth2/pushed_authorization.py b/src/oidcop/oauth2/pushed_authorization.py
index 83d9126..6164f8e 100644
--- a/src/oidcop/oauth2/pushed_authorization.py
+++ b/src/oidcop/oauth2/pushed_authorization.py
@@ -3,6 +3,7 @@ import uuid
 from cryptojwt.utils import qualified_name
 
 from oidcmsg import oauth2
+from oidcmsg.time_util import utc_time_sans_frac
 
 from oidcop.oauth2.authorization import Authorization
 
@@ -47,7 +48,8 @@ class PushedAuthorization(Authorization):
         _urn = "urn:uuid:{}".format(uuid.uuid4())
         # In a form that can be serialized
         self.server_get("endpoint_context").par_db[_urn] = {
-            qualified_name(request.__class__): request.to_dict()
+            qualified_name(request.__class__): request.to_dict(),
+            "expires_at": utc_time_sans_frac() + self.ttl,
         }
 
         return {
-- 
2.43.0


From 2b85eb24643fcb11434d189a77cf55202acf88be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:19 +0000
Subject: [PATCH 46/91] fix: a request_uri is only fetched once

---
 src/oidcop/oidc/authorization.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/oidcop/oidc/authorization.py b/src/oidcop/oidc/authorization.py
index fb4d73e..0d0a43e 100755
--- a/src/oidcop/oidc/authorization.py
+++ b/src/oidcop/oidc/authorization.py
@@ -99,8 +99,6 @@ class Authorization(authorization.Authorization):
     def __init__(self, server_get: Callable, **kwargs):
         authorization.Authorization.__init__(self, server_get, **kwargs)
         # self.pre_construct.append(self._pre_construct)
-        self.post_parse_request.append(self._do_request_uri)
-        self.post_parse_request.append(self._post_parse_request)
 
     def do_request_user(self, request_info, **kwargs):
         if proposed_user(request_info):
-- 
2.43.0


From 8b6b23bb0cc27766b24ca9eca61de9b8f327f6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:18 +0000
Subject: [PATCH 47/91] fix: an endpoint's empty default does not hide the
 supported scopes

---
 src/oidcop/oauth2/authorization.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index 3ca265f..8801503 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -328,7 +328,6 @@ class Authorization(Endpoint):
         "request_object_encryption_alg_values_supported": None,
         "request_object_encryption_enc_values_supported": None,
         "grant_types_supported": ["authorization_code", "implicit"],
-        "scopes_supported": [],
     }
 
     def __init__(self, server_get, **kwargs):
-- 
2.43.0


From 66a58810dc3279fabb3675d012610cb1bd631ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:18 +0000
Subject: [PATCH 48/91] fix: the documented scopes_supported setting is used

---
 src/oidcop/configure.py        | 1 +
 src/oidcop/endpoint_context.py | 4 +++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/configure.py b/src/oidcop/configure.py
index cd0b04f..4e22f14 100755
--- a/src/oidcop/configure.py
+++ b/src/oidcop/configure.py
@@ -107,6 +107,7 @@ class EntityConfiguration(Base):
         "httpc_params": {},
         "issuer": "",
         "keys": None,
+        "scopes_supported": [],
         "scopes_to_claims": {},
         "session_params": None,
         "template_dir": None,
diff --git a/src/oidcop/endpoint_context.py b/src/oidcop/endpoint_context.py
index 76da2a5..66bb4be 100755
--- a/src/oidcop/endpoint_context.py
+++ b/src/oidcop/endpoint_context.py
@@ -337,7 +337,9 @@ class EndpointContext(OidcContext):
             _provider_info["jwks_uri"] = self.jwks_uri
 
         if "scopes_supported" not in _provider_info:
-            _provider_info["scopes_supported"] = self.scopes_handler.get_allowed_scopes()
+            _provider_info["scopes_supported"] = (
+                self.conf.get("scopes_supported") or self.scopes_handler.get_allowed_scopes()
+            )
         if "claims_supported" not in _provider_info:
             _provider_info["claims_supported"] = list(
                 self.scopes_handler.scopes_to_claims(_provider_info["scopes_supported"]).keys()
-- 
2.43.0


From cc4f3e896214ef280c10b958c9b0a089140c563a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:46 +0000
Subject: [PATCH 49/91] fix: request objects are refused when they are not
 supported

---
 src/oidcop/oauth2/authorization.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index 8801503..29b2ecf 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -413,6 +413,12 @@ class Authorization(Endpoint):
     def _verify_request_object(self, request, client_id, endpoint_context, **kwargs):
         _request_object = request.get(verified_claim_name("request"))
         if isinstance(_request_object, Message):
+            if endpoint_context.provider_info.get("request_parameter_supported", True) is False:
+                return self.authentication_error_response(
+                    request,
+                    error="request_not_supported",
+                    error_description="Request objects are not supported",
+                )
             try:
                 self._check_request_object(_request_object, client_id, endpoint_context)
             except ValueError as err:
-- 
2.43.0


From 6b29b8a83ecb8306aeadbbb2d1eae5638b2c8255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:46 +0000
Subject: [PATCH 50/91] fix: claims_parameter_supported and
 response_modes_supported are respected

---
 src/oidcop/oauth2/authorization.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index 29b2ecf..7474fbd 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -541,6 +541,20 @@ class Authorization(Endpoint):
                 request, error="unauthorized_client", error_description="unknown client"
             )
 
+        # The claims parameter is ignored by a provider that doesn't support it
+        if endpoint_context.provider_info.get("claims_parameter_supported", True) is False:
+            if "claims" in request:
+                del request["claims"]
+
+        # Is the asked for response_mode one of the supported
+        _modes = endpoint_context.provider_info.get("response_modes_supported")
+        if _modes and request.get("response_mode", _modes[0]) not in _modes:
+            return self.authentication_error_response(
+                request,
+                error="invalid_request",
+                error_description="Unsupported response_mode",
+            )
+
         # Is the asked for response_type among those that are permitted
         if not self.verify_response_type(request, _cinfo):
             return self.authentication_error_response(
-- 
2.43.0


From a10b1c314dbd27622c22d91d751c613e6f60f895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:36 +0000
Subject: [PATCH 51/91] fix: client assertions at the token endpoint must use
 an allowed signing algorithm

---
 src/oidcop/client_authn.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/oidcop/client_authn.py b/src/oidcop/client_authn.py
index a34e632..8f12da3 100755
--- a/src/oidcop/client_authn.py
+++ b/src/oidcop/client_authn.py
@@ -212,6 +212,16 @@ class JWSAuthnMethod(ClientAuthnMethod):
         logger.debug("authntoken: {}".format(authtoken))
 
         _endpoint = kwargs.get("endpoint")
+        if _endpoint and _endpoint.name == "token":
+            # The algorithm must be the one the client registered or one of the supported
+            _supported = _context.provider_info.get(
+                "token_endpoint_auth_signing_alg_values_supported", [_sign_alg]
+            )
+            _client_info = _context.cdb.get(ca_jwt["iss"], {})
+            _registered = _client_info.get("token_endpoint_auth_signing_alg", _sign_alg)
+            if _sign_alg not in _supported or _sign_alg != _registered:
+                raise AuthnFailure("Signing algorithm not allowed")
+
         if _endpoint is None or not _endpoint:
             if _context.issuer in ca_jwt["aud"]:
                 pass
-- 
2.43.0


From dc066d67b1a9db9a0560bcf76cbe697ff7903bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:22 +0000
Subject: [PATCH 52/91] fix: the pushed authorization endpoint has no
 capabilities of its own

---
 src/oidcop/oauth2/pushed_authorization.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/oidcop/oauth2/pushed_authorization.py b/src/oidcop/oauth2/pushed_authorization.py
index 6164f8e..dc39b95 100644
--- a/src/oidcop/oauth2/pushed_authorization.py
+++ b/src/oidcop/oauth2/pushed_authorization.py
@@ -17,6 +17,8 @@ class PushedAuthorization(Authorization):
     response_placement = "body"
     response_format = "json"
     name = "pushed_authorization"
+    # What is supported is what the authorization endpoint supports
+    default_capabilities = None
 
     def __init__(self, server_get, **kwargs):
         Authorization.__init__(self, server_get, **kwargs)
-- 
2.43.0


From f8a885ba827969f5159efc9775e7b3dce47a86f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:22 +0000
Subject: [PATCH 53/91] fix: the default configuration does not list a grant
 type that is not supported

---
 src/oidcop/configure.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/oidcop/configure.py b/src/oidcop/configure.py
index 4e22f14..823000b 100755
--- a/src/oidcop/configure.py
+++ b/src/oidcop/configure.py
@@ -18,7 +18,6 @@ OP_DEFAULT_CONFIG = {
         "grant_types_supported": [
             "authorization_code",
             "implicit",
-            "urn:ietf:params:oauth:grant-type:jwt-bearer",
             "refresh_token",
         ],
     },
@@ -286,7 +285,6 @@ DEFAULT_EXTENDED_CONF = {
         "grant_types_supported": [
             "authorization_code",
             "implicit",
-            "urn:ietf:params:oauth:grant-type:jwt-bearer",
             "refresh_token",
         ],
     },
-- 
2.43.0


From 013881f39fbb87e0806f91e71dbe4ee36f19b84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:51 +0000
Subject: [PATCH 54/91] fix: registration is possible when the provider does
 not list what is supported

---
 src/oidcop/oidc/registration.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/oidcop/oidc/registration.py b/src/oidcop/oidc/registration.py
index fb34054..6019c1c 100755
--- a/src/oidcop/oidc/registration.py
+++ b/src/oidcop/oidc/registration.py
@@ -159,15 +159,19 @@ class Registration(Endpoint):
         _context = self.server_get("endpoint_context")
         for _pref, _prov in PREFERENCE2PROVIDER.items():
             if _pref in request:
+                _supported = _context.provider_info.get(_prov)
+                if _supported is None:
+                    # Not something that is limited by the provider
+                    continue
                 if _pref in ["response_types", "default_acr_values"]:
-                    if not match_sp_sep(request[_pref], _context.provider_info[_prov]):
+                    if not match_sp_sep(request[_pref], _supported):
                         raise CapabilitiesMisMatch(_pref)
                 else:
                     if isinstance(request[_pref], str):
-                        if request[_pref] not in _context.provider_info[_prov]:
+                        if request[_pref] not in _supported:
                             raise CapabilitiesMisMatch(_pref)
                     else:
-                        if not set(request[_pref]).issubset(set(_context.provider_info[_prov])):
+                        if not set(request[_pref]).issubset(set(_supported)):
                             raise CapabilitiesMisMatch(_pref)
 
     def do_client_registration(self, request, client_id, ignore=None):
@@ -242,7 +246,7 @@ class Registration(Endpoint):
         # Do I have the necessary keys
         for item in ["id_token_signed_response_alg", "userinfo_signed_response_alg"]:
             if item in request:
-                if request[item] in _context.provider_info[PREFERENCE2PROVIDER[item]]:
+                if request[item] in _context.provider_info.get(PREFERENCE2PROVIDER[item], []):
                     ktyp = alg2keytype(request[item])
                     # do I have this ktyp and for EC type keys the curve
                     if ktyp not in ["none", "oct"]:
-- 
2.43.0


From 4a4be95beca3e3c1d85df6565f91cd788c91d651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:14 +0000
Subject: [PATCH 55/91] fix: the token endpoint authenticates clients also when
 no methods are configured

---
 src/oidcop/oauth2/token.py | 19 ++++++++++++++-----
 src/oidcop/oidc/token.py   | 10 +++++++++-
 2 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/oidcop/oauth2/token.py b/src/oidcop/oauth2/token.py
index 056ddc3..2998e81 100755
--- a/src/oidcop/oauth2/token.py
+++ b/src/oidcop/oauth2/token.py
@@ -372,7 +372,15 @@ class Token(Endpoint):
     response_placement = "body"
     endpoint_name = "token_endpoint"
     name = "token"
-    default_capabilities = {"token_endpoint_auth_signing_alg_values_supported": None}
+    default_capabilities = {
+        "token_endpoint_auth_signing_alg_values_supported": None,
+        "client_authn_method": [
+            "client_secret_post",
+            "client_secret_basic",
+            "client_secret_jwt",
+            "private_key_jwt",
+        ],
+    }
     helper_by_grant_type = {
         "authorization_code": AccessTokenHelper,
         "refresh_token": RefreshTokenHelper,
@@ -381,10 +389,11 @@ class Token(Endpoint):
     def __init__(self, server_get, new_refresh_token=False, **kwargs):
         Endpoint.__init__(self, server_get, **kwargs)
         self.post_parse_request.append(self._post_parse_request)
-        if "client_authn_method" in kwargs:
-            self.endpoint_info["token_endpoint_auth_methods_supported"] = kwargs[
-                "client_authn_method"
-            ]
+        _methods = kwargs.get("client_authn_method")
+        if _methods is None:
+            _methods = self.default_capabilities.get("client_authn_method")
+        self.endpoint_info.pop("client_authn_method", None)
+        self.endpoint_info["token_endpoint_auth_methods_supported"] = _methods
         self.allow_refresh = False
         self.new_refresh_token = new_refresh_token
         self.configure_grant_types(kwargs.get("grant_types_supported"))
diff --git a/src/oidcop/oidc/token.py b/src/oidcop/oidc/token.py
index 337588b..9874672 100755
--- a/src/oidcop/oidc/token.py
+++ b/src/oidcop/oidc/token.py
@@ -363,7 +363,15 @@ class Token(oauth2.token.Token):
     response_placement = "body"
     endpoint_name = "token_endpoint"
     name = "token"
-    default_capabilities = {"token_endpoint_auth_signing_alg_values_supported": None}
+    default_capabilities = {
+        "token_endpoint_auth_signing_alg_values_supported": None,
+        "client_authn_method": [
+            "client_secret_post",
+            "client_secret_basic",
+            "client_secret_jwt",
+            "private_key_jwt",
+        ],
+    }
     helper_by_grant_type = {
         "authorization_code": AccessTokenHelper,
         "refresh_token": RefreshTokenHelper,
-- 
2.43.0


From c0286ebe448335cf9d70946da5acda38bb2f1973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:54 +0000
Subject: [PATCH 56/91] fix: the release setting of the introspection endpoint
 is used

---
 src/oidcop/oauth2/introspection.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/oidcop/oauth2/introspection.py b/src/oidcop/oauth2/introspection.py
index 53c26fe..99c49c7 100644
--- a/src/oidcop/oauth2/introspection.py
+++ b/src/oidcop/oauth2/introspection.py
@@ -108,6 +108,9 @@ class Introspection(Endpoint):
         if _info is None:
             return {"response_args": _resp}
 
+        if release is None:
+            release = self.kwargs.get("release")
+
         if release:
             if "username" in release:
                 try:
-- 
2.43.0


From 1fad486ff75eeedeee9cee291c90710e83198a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:54 +0000
Subject: [PATCH 57/91] fix: userinfo responses can be signed with the client
 secret

---
 src/oidcop/oidc/userinfo.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/oidc/userinfo.py b/src/oidcop/oidc/userinfo.py
index 6e6ce97..d759204 100755
--- a/src/oidcop/oidc/userinfo.py
+++ b/src/oidcop/oidc/userinfo.py
@@ -94,7 +94,13 @@ class UserInfo(Endpoint):
                 enc_alg=enc_alg,
             )
 
-            resp = _jwt.pack(response_args, recv=client_id)
+            # A symmetric signature is made with the client's secret
+            if sign and sign_alg.startswith("HS"):
+                _issuer_id = client_id
+            else:
+                _issuer_id = ""
+
+            resp = _jwt.pack(response_args, recv=client_id, issuer_id=_issuer_id)
             content_type = "application/jwt"
         else:
             if isinstance(response_args, dict):
-- 
2.43.0


From 96cb4564dd8178ab5cecd6ed767fe5a779e716f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:54 +0000
Subject: [PATCH 58/91] fix: userinfo is encrypted also when only the alg is
 registered

---
 src/oidcop/oidc/userinfo.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/oidc/userinfo.py b/src/oidcop/oidc/userinfo.py
index d759204..85ed0fc 100755
--- a/src/oidcop/oidc/userinfo.py
+++ b/src/oidcop/oidc/userinfo.py
@@ -76,8 +76,9 @@ class UserInfo(Endpoint):
             sign = False
 
         try:
-            enc_enc = _cinfo["userinfo_encrypted_response_enc"]
             enc_alg = _cinfo["userinfo_encrypted_response_alg"]
+            # If only the alg is registered then the default enc is A128CBC-HS256
+            enc_enc = _cinfo.get("userinfo_encrypted_response_enc", "A128CBC-HS256")
             encrypt = True
         except KeyError:
             encrypt = False
-- 
2.43.0


From 1cec750bfa17cff7a9978b123b98d4ab740c7493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:55 +0000
Subject: [PATCH 59/91] fix: whatever is not a token of this server is an
 unknown token

---
 src/oidcop/token/handler.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/token/handler.py b/src/oidcop/token/handler.py
index c4fb238..177e7d4 100755
--- a/src/oidcop/token/handler.py
+++ b/src/oidcop/token/handler.py
@@ -71,7 +71,16 @@ class TokenHandler(ImpExp):
         for typ in order:
             try:
                 res = self.handler[typ].info(token)
-            except (KeyError, TokenException, Invalid, AttributeError):
+            except (
+                KeyError,
+                TokenException,
+                Invalid,
+                AttributeError,
+                # Values, or the content of them, can be of any type
+                TypeError,
+                ValueError,
+                IndexError,
+            ):
                 pass
             else:
                 return self.handler[typ], res
-- 
2.43.0


From 3a62060e4402e45653affc5b547255cbdc32163a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:52 +0000
Subject: [PATCH 60/91] fix: user claims can not replace the scope or type of a
 token

---
 src/oidcop/session/grant.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/oidcop/session/grant.py b/src/oidcop/session/grant.py
index eca5d58..4c562f6 100644
--- a/src/oidcop/session/grant.py
+++ b/src/oidcop/session/grant.py
@@ -26,6 +26,7 @@ logger = logging.getLogger(__name__)
 PROTOCOL_CLAIMS = [
     "access_token",
     "acr",
+    "active",
     "at_hash",
     "aud",
     "auth_time",
@@ -40,10 +41,12 @@ PROTOCOL_CLAIMS = [
     "jti",
     "nbf",
     "nonce",
+    "scope",
     "session_id",
     "sid",
     "sub",
     "token_class",
+    "token_type",
     "ttype",
     "usage_rules",
 ]
-- 
2.43.0


From f550d7bd7f93a6779a3d9a75397cde8d8a4623be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:40 +0000
Subject: [PATCH 61/91] fix: the payload of a DPoP proof does not replace the
 header

---
 src/oidcop/oauth2/add_on/dpop.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/oidcop/oauth2/add_on/dpop.py b/src/oidcop/oauth2/add_on/dpop.py
index 472c5ea..2e1b470 100644
--- a/src/oidcop/oauth2/add_on/dpop.py
+++ b/src/oidcop/oauth2/add_on/dpop.py
@@ -71,11 +71,14 @@ class DPoPProof(Message):
                 _pub_key = key_from_jwk_dict(_jwt.headers["jwk"])
                 _pub_key.deserialize()
                 _info = _jws.verify_compact(keys=[_pub_key], sigalg=_jwt.headers["alg"])
-                for k, v in _jwt.headers.items():
-                    self[k] = v
-
-                for k, v in _info.items():
-                    self[k] = v
+                # Nothing in the payload must replace what is in the header
+                for k in self.header_params:
+                    if k in _jwt.headers:
+                        self[k] = _jwt.headers[k]
+
+                for k in self.body_params:
+                    if k in _info:
+                        self[k] = _info[k]
             else:
                 raise Exception()
 
-- 
2.43.0


From dc093eaf7d925f5cc6ee536518e511981ba557d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:40 +0000
Subject: [PATCH 62/91] fix: DPoP proofs are verified

---
 src/oidcop/oauth2/add_on/dpop.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/oidcop/oauth2/add_on/dpop.py b/src/oidcop/oauth2/add_on/dpop.py
index 2e1b470..a28af47 100644
--- a/src/oidcop/oauth2/add_on/dpop.py
+++ b/src/oidcop/oauth2/add_on/dpop.py
@@ -104,9 +104,16 @@ def post_parse_request(request, client_id, endpoint_context, **kwargs):
         return request
 
     _dpop = DPoPProof().verify_header(_http_info["headers"]["dpop"])
+    if _dpop is None:
+        raise ValueError("The DPoP proof is not a signed JWT")
 
     # The signature of the JWS is verified, now for checking the
     # content
+    _dpop.verify()
+
+    _algs_supported = endpoint_context.provider_info.get("dpop_signing_alg_values_supported")
+    if _algs_supported and _dpop["alg"] not in _algs_supported:
+        raise ValueError("The signing algorithm of the DPoP proof is not supported")
 
     if _dpop["htu"] != _http_info["url"]:
         raise ValueError("htu in DPoP does not match the HTTP URI")
-- 
2.43.0


From 831a0cb1b3b30d1324cb76dd8a3b3c49c47ca0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:40 +0000
Subject: [PATCH 63/91] fix: access tokens of the OAuth2 token endpoint are
 bound by DPoP

---
 src/oidcop/oauth2/token.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/oauth2/token.py b/src/oidcop/oauth2/token.py
index 2998e81..a2aeeab 100755
--- a/src/oidcop/oauth2/token.py
+++ b/src/oidcop/oauth2/token.py
@@ -132,6 +132,15 @@ class AccessTokenHelper(TokenEndpointHelper):
             grant_types_supported = _context.provider_info["grant_types_supported"]
         grant = _session_info["grant"]
 
+        token_type = "Bearer"
+
+        # Is DPOP supported
+        if "dpop_signing_alg_values_supported" in _context.provider_info:
+            _dpop_jkt = req.get("dpop_jkt")
+            if _dpop_jkt:
+                grant.extra["dpop_jkt"] = _dpop_jkt
+                token_type = "DPoP"
+
         _based_on = grant.get_token(_access_code)
         _supports_minting = _based_on.usage_rules.get("supports_minting", [])
 
@@ -149,7 +158,7 @@ class AccessTokenHelper(TokenEndpointHelper):
 
         issue_refresh = kwargs.get("issue_refresh", False)
         _response = {
-            "token_type": "Bearer",
+            "token_type": token_type,
             "scope": grant.scope,
         }
 
@@ -161,6 +170,7 @@ class AccessTokenHelper(TokenEndpointHelper):
                     session_id=_session_info["session_id"],
                     client_id=_session_info["client_id"],
                     based_on=_based_on,
+                    token_type=token_type,
                 )
             except MintingNotAllowed as err:
                 logger.warning(err)
-- 
2.43.0


From 6378edfd5f8a4ea8ea517e25f88db442152902a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:49 +0000
Subject: [PATCH 64/91] fix: the user identifier of a session is never unpacked

---
 src/oidcop/oauth2/authorization.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index 7474fbd..93d54db 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -657,6 +657,9 @@ class Authorization(Endpoint):
 
     def _unwrap_identity(self, identity):
         if isinstance(identity, dict):
+            # What comes from a session cookie is not packed, a user identifier may still look so
+            if identity.get("sid"):
+                return identity
             try:
                 _id = json.loads(as_unicode(b64d(as_bytes(identity["uid"]))))
             except (BadSyntax, ValueError):
-- 
2.43.0


From 95bea5238d3910d27574eb1f2044937d67c4b9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:50 +0000
Subject: [PATCH 65/91] fix: a request that does not ask for a known
 authentication class is answered

---
 src/oidcop/oauth2/authorization.py     | 7 ++++++-
 src/oidcop/user_authn/authn_context.py | 3 ++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index 93d54db..4033cb6 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -594,12 +594,15 @@ class Authorization(Endpoint):
         if res:
             return res
         else:
-            return {
+            _res = {
                 "error": "access_denied",
                 "error_description": "ACR I do not support",
                 "return_uri": redirect_uri,
                 "return_type": request["response_type"],
             }
+            if request.get("state"):
+                _res["state"] = request["state"]
+            return _res
 
     def create_session(self, request, user_id, acr, time_stamp, authn_method):
         _context = self.server_get("endpoint_context")
@@ -690,6 +693,8 @@ class Authorization(Endpoint):
         """
 
         res = self.pick_authn_method(request, redirect_uri, acr, **kwargs)
+        if "error" in res:
+            return res
 
         authn = res["method"]
         authn_class_ref = res["acr"]
diff --git a/src/oidcop/user_authn/authn_context.py b/src/oidcop/user_authn/authn_context.py
index 4b16330..9b677e7 100755
--- a/src/oidcop/user_authn/authn_context.py
+++ b/src/oidcop/user_authn/authn_context.py
@@ -113,7 +113,8 @@ def _acr_claim(request):
     if _claims:
         _id_token_claim = _claims.get("id_token")
         if _id_token_claim:
-            _acr = _id_token_claim.get("acr")
+            # The acr claim may be absent or have the value null
+            _acr = _id_token_claim.get("acr") or {}
             if "value" in _acr:
                 return [_acr["value"]]
             elif "values" in _acr:
-- 
2.43.0


From 1ae85002e1fe603aa728da04d479c0446bdd5399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:17 +0000
Subject: [PATCH 66/91] fix: max_age is about the authentication

---
 src/oidcop/oauth2/authorization.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index 4033cb6..be1fd2c 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -90,8 +90,14 @@ def inputs(form_args):
 
 
 def max_age(request):
+    """
+    The maximum age of an authentication, None if there is no limit.
+    """
     verified_request = verified_claim_name("request")
-    return request.get(verified_request, {}).get("max_age") or request.get("max_age", 0)
+    _max_age = request.get(verified_request, {}).get("max_age")
+    if _max_age is None:
+        _max_age = request.get("max_age")
+    return _max_age
 
 
 def verify_uri(
@@ -701,15 +707,16 @@ class Authorization(Endpoint):
 
         client_id = request.get("client_id")
         _context = self.server_get("endpoint_context")
+        _max_age = None
         try:
             _auth_info = kwargs.get("authn", "")
             if "upm_answer" in request and request["upm_answer"] == "true":
-                _max_age = 0
+                _max_age = None
             else:
                 _max_age = max_age(request)
             logger.debug(f"Max age: {_max_age}")
             identity, _ts = authn.authenticated_as(
-                client_id, cookie, authorization=_auth_info, max_age=_max_age
+                client_id, cookie, authorization=_auth_info, max_age=_max_age or 0
             )
         except (NoSuchAuthentication, TamperAllert):
             identity = None
@@ -776,6 +783,14 @@ class Authorization(Endpoint):
                         return {"function": authn, "args": authn_args}
 
                     grant = _mngr[_session_id]
+                    # The cookie may be younger than the authentication
+                    _authn_time = grant.authentication_event["authn_time"]
+                    if _max_age is not None and utc_time_sans_frac() > _authn_time + _max_age:
+                        logger.info("Too old authentication")
+                        if "prompt" in request and "none" in request["prompt"]:
+                            return self._login_required_error(redirect_uri, request)
+                        return {"function": authn, "args": authn_args}
+
                     if grant.is_active() is False:
                         return {"function": authn, "args": authn_args}
                     elif request != grant.authorization_request:
-- 
2.43.0


From fdbc6967b5e57938e032dc4a56cb1e8200a861b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:17 +0000
Subject: [PATCH 67/91] fix: no login page with prompt=none when the
 authentication has expired

---
 src/oidcop/oauth2/authorization.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index be1fd2c..ecc8f8f 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -796,6 +796,8 @@ class Authorization(Endpoint):
                     elif request != grant.authorization_request:
                         authn_event = _mngr.get_authentication_event(session_id=_session_id)
                         if authn_event.is_valid() is False:  # if not valid, do new login
+                            if "prompt" in request and "none" in request["prompt"]:
+                                return self._login_required_error(redirect_uri, request)
                             return {"function": authn, "args": authn_args}
 
                         # create new grant
@@ -811,6 +813,8 @@ class Authorization(Endpoint):
         if _session_id:
             authn_event = _mngr.get_authentication_event(session_id=_session_id)
             if authn_event.is_valid() is False:  # if not valid, do new login
+                if "prompt" in request and "none" in request["prompt"]:
+                    return self._login_required_error(redirect_uri, request)
                 return {"function": authn, "args": authn_args}
         else:
             _session_id = self.create_session(request, identity["uid"], authn_class_ref, _ts, authn)
-- 
2.43.0


From 04dc0aa591712d1d410884b23939def934f50e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:17 +0000
Subject: [PATCH 68/91] fix: a login hint may be about an unknown user

---
 src/oidcop/oidc/authorization.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/oidc/authorization.py b/src/oidcop/oidc/authorization.py
index 0d0a43e..c9b9794 100755
--- a/src/oidcop/oidc/authorization.py
+++ b/src/oidcop/oidc/authorization.py
@@ -108,5 +108,8 @@ class Authorization(authorization.Authorization):
             if _login_hint:
                 _context = self.server_get("endpoint_context")
                 if _context.login_hint_lookup:
-                    kwargs["req_user"] = _context.login_hint_lookup(_login_hint)
+                    try:
+                        kwargs["req_user"] = _context.login_hint_lookup(_login_hint)
+                    except KeyError:  # No user like that
+                        kwargs["req_user"] = None
         return kwargs
-- 
2.43.0


From 2667e7c213541a5e7a8a1113d682447b3ba1849d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:49 +0000
Subject: [PATCH 69/91] fix: an existing login of another user does not satisfy
 an id_token_hint

---
 src/oidcop/oauth2/authorization.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index ecc8f8f..13d9fe8 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -783,6 +783,18 @@ class Authorization(Endpoint):
                         return {"function": authn, "args": authn_args}
 
                     grant = _mngr[_session_id]
+                    # An ID Token given as a hint must be about the same subject
+                    _hint = request.get("verified_id_token_hint")
+                    if (
+                        isinstance(_hint, Message)
+                        and self._subject_args(_cid)["sub_type"] != "ephemeral"
+                        and _hint.get("sub") != grant.sub
+                    ):
+                        logger.debug("Wanted to be someone else!")
+                        if "prompt" in request and "none" in request["prompt"]:
+                            return self._login_required_error(redirect_uri, request)
+                        return {"function": authn, "args": authn_args}
+
                     # The cookie may be younger than the authentication
                     _authn_time = grant.authentication_event["authn_time"]
                     if _max_age is not None and utc_time_sans_frac() > _authn_time + _max_age:
-- 
2.43.0


From f9ce1c63c42359bf0ab2848c60cef146052d65be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:45 +0000
Subject: [PATCH 70/91] fix: the token of a login page must be issued by the
 server itself

---
 src/oidcop/user_authn/user.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/user_authn/user.py b/src/oidcop/user_authn/user.py
index 9e54e3a..eeefa0a 100755
--- a/src/oidcop/user_authn/user.py
+++ b/src/oidcop/user_authn/user.py
@@ -84,7 +84,12 @@ class UserAuthnMethod(object):
         raise NotImplementedError
 
     def unpack_token(self, token):
-        return verify_signed_jwt(token=token, keyjar=self.server_get("endpoint_context").keyjar)
+        _context = self.server_get("endpoint_context")
+        _info = verify_signed_jwt(token=token, keyjar=_context.keyjar)
+        # The key jar also contains keys belonging to other entities
+        if _info.get("iss") != _context.issuer:
+            raise FailedAuthentication("Not issued by this server")
+        return _info
 
     def done(self, areq):
         """
-- 
2.43.0


From 18c1a485632c0fbb8dccb271a22005ed11655e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:58 +0000
Subject: [PATCH 71/91] fix: token password of a newly created key

---
 src/oidcop/token/handler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/token/handler.py b/src/oidcop/token/handler.py
index 177e7d4..b5eb9d8 100755
--- a/src/oidcop/token/handler.py
+++ b/src/oidcop/token/handler.py
@@ -124,7 +124,8 @@ def _add_passwd(keyjar, conf, kid):
     if keyjar:
         _keys = keyjar.get_encrypt_key(key_type="oct", kid=kid)
         if _keys:
-            pw = as_unicode(_keys[0].k)
+            # A key that was just created does not have 'k' set
+            pw = as_unicode(_keys[0].serialize(private=True)["k"])
             if "kwargs" in conf:
                 conf["kwargs"]["password"] = pw
             else:
-- 
2.43.0


From 0540f3e99075a7c50d7a999c5818c01c38c6f471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:58 +0000
Subject: [PATCH 72/91] fix: signed access and refresh tokens are not ID Tokens

---
 src/oidcop/token/id_token.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/oidcop/token/id_token.py b/src/oidcop/token/id_token.py
index 83258e9..5af9108 100755
--- a/src/oidcop/token/id_token.py
+++ b/src/oidcop/token/id_token.py
@@ -12,6 +12,7 @@ from oidcop.exception import ToOld
 from oidcop.session.claims import claims_match
 from oidcop.token import is_expired
 from oidcop.token.exception import InvalidToken
+from oidcop.token.exception import WrongTokenClass
 
 from . import Token
 from . import UnknownToken
@@ -328,6 +329,10 @@ class IDToken(Token):
         if _payload.get("iss") != _context.issuer:
             raise UnknownToken()
 
+        # Signed tokens of other kinds are marked as such
+        if "token_class" in _payload or "ttype" in _payload:
+            raise WrongTokenClass()
+
         verifier = factory(token, alg=alg_dict["sign_alg"])
         if alg_dict["sign_alg"].startswith("HS"):
             _keys = _context.keyjar.get_signing_key("oct", client_id)
-- 
2.43.0


From fd80b74c10edf15187ca94189ffa7e4cea7e413c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:58 +0000
Subject: [PATCH 73/91] fix: values that decode but were not issued

---
 src/oidcop/oauth2/introspection.py | 2 ++
 src/oidcop/oidc/userinfo.py        | 5 ++++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/oauth2/introspection.py b/src/oidcop/oauth2/introspection.py
index 99c49c7..f6b3d27 100644
--- a/src/oidcop/oauth2/introspection.py
+++ b/src/oidcop/oauth2/introspection.py
@@ -103,6 +103,8 @@ class Introspection(Endpoint):
 
         grant = _session_info["grant"]
         _token = grant.get_token(request_token)
+        if _token is None:  # Not what was issued, though it can be decoded
+            return {"response_args": _resp}
 
         _info = self._introspect(_token, _session_info["client_id"], _session_info["grant"])
         if _info is None:
diff --git a/src/oidcop/oidc/userinfo.py b/src/oidcop/oidc/userinfo.py
index 85ed0fc..3c9c590 100755
--- a/src/oidcop/oidc/userinfo.py
+++ b/src/oidcop/oidc/userinfo.py
@@ -124,8 +124,11 @@ class UserInfo(Endpoint):
 
         _grant = _session_info["grant"]
         token = _grant.get_token(request["access_token"])
+        if token is None:  # Not what was issued, though it can be decoded
+            return self.error_cls(error="invalid_token", error_description="Invalid Token")
+
         # should be an access token
-        if token and token.token_class != "access_token":
+        if token.token_class != "access_token":
             return self.error_cls(error="invalid_token", error_description="Wrong type of token")
 
         # And it should be valid
-- 
2.43.0


From 38e7f581ff06f40558f01313aee91cf70e43e733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:56 +0000
Subject: [PATCH 74/91] fix: an introspection request can have a parameter
 named error

---
 src/oidcop/oauth2/introspection.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/oidcop/oauth2/introspection.py b/src/oidcop/oauth2/introspection.py
index f6b3d27..f9836f9 100644
--- a/src/oidcop/oauth2/introspection.py
+++ b/src/oidcop/oauth2/introspection.py
@@ -86,9 +86,11 @@ class Introspection(Endpoint):
         :param kwargs:
         :return:
         """
+        # The error message parsing ended with, not a request that has such a parameter
+        if isinstance(request, self.error_cls) and "error" in request:
+            return request
+
         _introspect_request = self.request_cls(**request)
-        if "error" in _introspect_request:
-            return _introspect_request
 
         request_token = _introspect_request["token"]
         _resp = self.response_cls(active=False)
-- 
2.43.0


From 0af8e1ed62659e56391d27aeedb5577701a65504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:09 +0000
Subject: [PATCH 75/91] fix: the credentials a client authenticated with are
 not part of the pushed request

---
 src/oidcop/oauth2/pushed_authorization.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/oauth2/pushed_authorization.py b/src/oidcop/oauth2/pushed_authorization.py
index dc39b95..c56cf93 100644
--- a/src/oidcop/oauth2/pushed_authorization.py
+++ b/src/oidcop/oauth2/pushed_authorization.py
@@ -7,6 +7,8 @@ from oidcmsg.time_util import utc_time_sans_frac
 
 from oidcop.oauth2.authorization import Authorization
 
+CLIENT_AUTHN_PARAMETERS = ["client_secret", "client_assertion", "client_assertion_type"]
+
 
 class PushedAuthorization(Authorization):
     request_cls = oauth2.PushedAuthorizationRequest
@@ -48,9 +50,11 @@ class PushedAuthorization(Authorization):
         # create URN
 
         _urn = "urn:uuid:{}".format(uuid.uuid4())
+        # What the client authenticated with is not part of the authorization request
+        _args = {k: v for k, v in request.to_dict().items() if k not in CLIENT_AUTHN_PARAMETERS}
         # In a form that can be serialized
         self.server_get("endpoint_context").par_db[_urn] = {
-            qualified_name(request.__class__): request.to_dict(),
+            qualified_name(request.__class__): _args,
             "expires_at": utc_time_sans_frac() + self.ttl,
         }
 
-- 
2.43.0


From 5e03ae4f269a4a8fc15a65be62cbbafeda4b2f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:09 +0000
Subject: [PATCH 76/91] fix: a password in a Basic authorization header may
 contain colons

---
 src/oidcop/user_authn/user.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/oidcop/user_authn/user.py b/src/oidcop/user_authn/user.py
index eeefa0a..9ac00e8 100755
--- a/src/oidcop/user_authn/user.py
+++ b/src/oidcop/user_authn/user.py
@@ -214,7 +214,7 @@ class BasicAuthn(UserAuthnMethod):
         self.ttl = ttl
 
     def verify_password(self, user, password):
-        if password != self.passwd[user]:
+        if user not in self.passwd or password != self.passwd[user]:
             raise FailedAuthentication("Wrong password")
 
     def authenticated_as(self, client_id, cookie=None, authorization="", **kwargs):
@@ -228,7 +228,8 @@ class BasicAuthn(UserAuthnMethod):
         if authorization.startswith("Basic"):
             authorization = authorization[6:]
 
-        (user, pwd) = base64.b64decode(authorization).split(b":")
+        # The password may contain colons
+        (user, pwd) = base64.b64decode(authorization).split(b":", 1)
         user = unquote(user.decode())
         self.verify_password(user, pwd.decode())
         res = {"uid": user}
-- 
2.43.0


From f47038e8970e842ac529c0aaf9f3404dab958fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:09 +0000
Subject: [PATCH 77/91] fix: SymKeyAuthn accepts every token that can be
 decrypted and tells who the user is

---
 src/oidcop/user_authn/user.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/oidcop/user_authn/user.py b/src/oidcop/user_authn/user.py
index 9ac00e8..3cf58e7 100755
--- a/src/oidcop/user_authn/user.py
+++ b/src/oidcop/user_authn/user.py
@@ -8,6 +8,7 @@ from typing import List
 from urllib.parse import unquote
 import warnings
 
+from cryptography.exceptions import InvalidTag
 from cryptography.hazmat.primitives.ciphers.aead import AESGCM
 from cryptojwt.jwt import JWT
 from oidcmsg.time_util import utc_time_sans_frac
@@ -258,11 +259,17 @@ class SymKeyAuthn(UserAuthnMethod):
         :param kwargs: extra key word arguments
         :return:
         """
-        (encmsg, iv) = base64.b64decode(authorization).split(b":")
-        try:
-            aesgcm = AESGCM(self.symkey)
-            user = aesgcm.decrypt(iv, encmsg, None)
-        except (AssertionError, KeyError):  # pragma: no-cover
+        _info = base64.b64decode(authorization)
+        aesgcm = AESGCM(self.symkey)
+        user = None
+        # Both the encrypted message and the IV may contain the separator
+        for pos in [i for i, c in enumerate(_info) if c == ord(":")]:
+            try:
+                user = aesgcm.decrypt(_info[pos + 1 :], _info[:pos], None).decode()
+            except (InvalidTag, ValueError):
+                continue
+            break
+        if user is None:
             raise FailedAuthentication("Decryption failed")
 
         res = {"uid": user}
-- 
2.43.0


From 4aa2f59ea7b8ae9f5f7cd1cdc010904b111f946e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:28 +0000
Subject: [PATCH 78/91] fix: defaults of the configuration are completed with
 base path, domain and port

---
 src/oidcop/configure.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/oidcop/configure.py b/src/oidcop/configure.py
index 823000b..c2cb8a0 100755
--- a/src/oidcop/configure.py
+++ b/src/oidcop/configure.py
@@ -132,15 +132,16 @@ class EntityConfiguration(Base):
             _val = conf.get(key)
             if not _val:
                 if key in self.default_config:
-                    _val = copy.deepcopy(self.default_config[key])
+                    _default = {key: copy.deepcopy(self.default_config[key])}
                     self.format(
-                        _val,
+                        _default,
                         base_path=base_path,
-                        file_attributes=file_attributes,
-                        domain=domain,
-                        port=port,
-                        dir_attributes=dir_attributes
+                        file_attributes=self._file_attributes,
+                        domain=domain or self.domain,
+                        port=port or self.port,
+                        dir_attributes=self._dir_attributes,
                     )
+                    _val = _default[key]
                 else:
                     continue
 
-- 
2.43.0


From 64f258cd20d43c64b029102043b8048308d5231c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:56 +0000
Subject: [PATCH 79/91] fix: the configured timeout is used by the HTTP client

---
 src/oidcop/util.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/oidcop/util.py b/src/oidcop/util.py
index ed34f18..a90aa26 100755
--- a/src/oidcop/util.py
+++ b/src/oidcop/util.py
@@ -164,6 +164,9 @@ def get_http_params(config):
     else:
         params = {}
 
+    if config.get("timeout") is not None:
+        params["timeout"] = config["timeout"]
+
     _cert = config.get("client_cert")
     _key = config.get("client_key")
     if _cert:
-- 
2.43.0


From a7dabdd1c584d3ccd953c68d1afa8d92b77fd30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:25 +0000
Subject: [PATCH 80/91] fix: cookie keys kept in a file survive a restart

---
 src/oidcop/cookie_handler.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/oidcop/cookie_handler.py b/src/oidcop/cookie_handler.py
index e1b500c..61b79da 100755
--- a/src/oidcop/cookie_handler.py
+++ b/src/oidcop/cookie_handler.py
@@ -47,6 +47,12 @@ class CookieHandler:
         self.enc_key = None
 
         if keys:
+            if keys.get("key_defs"):
+                # Keys that were stored are only recognised, and kept, if the type is in lower case
+                _defs = [
+                    {**kd, "type": "oct"} if kd["type"] == "OCT" else kd for kd in keys["key_defs"]
+                ]
+                keys = {**keys, "key_defs": _defs}
             key_jar = init_key_jar(**keys)
             _keys = key_jar.get_signing_key(key_type="oct", kid="sig")
             if _keys:
-- 
2.43.0


From 5d43000a1ab2c860f48b3c0515be3431896ca419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:28 +0000
Subject: [PATCH 81/91] fix: tokens without a rule of their own live as long as
 the handler says

---
 src/oidcop/oauth2/authorization.py | 5 ++++-
 src/oidcop/oauth2/token.py         | 5 ++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index 13d9fe8..f098e97 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -377,13 +377,16 @@ class Authorization(Endpoint):
             **kwargs,
         )
 
+        _mngr = self.server_get("endpoint_context").session_manager
         _exp_in = usage_rules.get("expires_in")
+        if _exp_in is None:
+            # The same lifetime as the handler will put into the token
+            _exp_in = getattr(_mngr.token_handler[token_class], "lifetime", None)
         if isinstance(_exp_in, str):
             _exp_in = int(_exp_in)
         if _exp_in and _exp_in > 0:  # A negative value means the token never expires
             token.expires_at = utc_time_sans_frac() + _exp_in
 
-        _mngr = self.server_get("endpoint_context").session_manager
         _mngr.set(_mngr.decrypt_session_id(session_id), grant)
 
         return token
diff --git a/src/oidcop/oauth2/token.py b/src/oidcop/oauth2/token.py
index a2aeeab..0bc2cbf 100755
--- a/src/oidcop/oauth2/token.py
+++ b/src/oidcop/oauth2/token.py
@@ -58,9 +58,8 @@ class TokenEndpointHelper(object):
         _context = self.endpoint.server_get("endpoint_context")
         _mngr = _context.session_manager
         usage_rules = grant.usage_rules.get(token_class)
-        if usage_rules:
-            _exp_in = usage_rules.get("expires_in")
-        else:
+        _exp_in = usage_rules.get("expires_in") if usage_rules else None
+        if _exp_in is None:
             # The same lifetime as the handler will put into the token
             _exp_in = getattr(
                 _mngr.token_handler[token_class], "lifetime", DEFAULT_TOKEN_LIFETIME
-- 
2.43.0


From 530f351635d86757c45b01dcfb1ecb2d9b2f1d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:52 +0000
Subject: [PATCH 82/91] fix: ID Tokens are encrypted for clients that
 registered an encryption algorithm

---
 src/oidcop/token/id_token.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/token/id_token.py b/src/oidcop/token/id_token.py
index 5af9108..b2dfa6f 100755
--- a/src/oidcop/token/id_token.py
+++ b/src/oidcop/token/id_token.py
@@ -27,6 +27,9 @@ DEF_SIGN_ALG = {
     "private_key_jwt": "RS256",
 }
 
+# If a client only registers an encryption algorithm
+DEF_ENC_ENC = "A128CBC-HS256"
+
 
 def include_session_id(endpoint_context, client_id, where):
     """
@@ -104,7 +107,9 @@ def get_sign_and_encrypt_algorithms(
                 _supported = endpoint_context.provider_info.get(
                     "{}_encryption_enc_values_supported".format(payload_type)
                 )
-                if _supported:
+                if "%s_encrypted_response_alg" % payload_type in client_info:
+                    args["enc_enc"] = DEF_ENC_ENC
+                elif _supported:
                     args["enc_enc"] = _supported[0]
 
     return args
@@ -291,6 +296,10 @@ class IDToken(Token):
         else:
             lifetime = self.lifetime
 
+        # A client that has registered an encryption algorithm expects encrypted ID Tokens
+        if _context.cdb[client_id].get("id_token_encrypted_response_alg"):
+            encrypt = True
+
         id_token = self.sign_encrypt(
             session_id,
             client_id,
-- 
2.43.0


From eba1243d234b385a5f5c4b61cdc285ab7faf2eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:10 +0000
Subject: [PATCH 83/91] fix: PKCE support leaves other kinds of grants alone

---
 src/oidcop/oidc/add_on/pkce.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/oidcop/oidc/add_on/pkce.py b/src/oidcop/oidc/add_on/pkce.py
index c9763b2..b498b57 100644
--- a/src/oidcop/oidc/add_on/pkce.py
+++ b/src/oidcop/oidc/add_on/pkce.py
@@ -97,6 +97,10 @@ def post_token_parse(request, client_id, endpoint_context, **kwargs):
     ):
         return request
 
+    if "code" not in request:
+        # Some other kind of grant. Nothing to verify
+        return request
+
     try:
         _session_info = endpoint_context.session_manager.get_session_info_by_token(
             request["code"], grant=True
-- 
2.43.0


From db4c02f0e3936e030e65cc798f56b9bce5630e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:03 +0000
Subject: [PATCH 84/91] fix: userinfo never takes the acr from the user record

---
 src/oidcop/oidc/userinfo.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/oidcop/oidc/userinfo.py b/src/oidcop/oidc/userinfo.py
index 3c9c590..1849dd3 100755
--- a/src/oidcop/oidc/userinfo.py
+++ b/src/oidcop/oidc/userinfo.py
@@ -159,6 +159,9 @@ class UserInfo(Endpoint):
             info["sub"] = _grant.sub
             if _grant.add_acr_value("userinfo"):
                 info["acr"] = _grant.authentication_event["authn_info"]
+            else:
+                # It is not for the user database to state how the user was authenticated
+                info.pop("acr", None)
         else:
             info = {
                 "error": "invalid_request",
-- 
2.43.0


From b001c05fc532c5ddaa060d904fde604491e61b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:13 +0000
Subject: [PATCH 85/91] fix: a cookie about a session that no longer exists
 means that a login is needed

---
 src/oidcop/oauth2/authorization.py | 3 +++
 src/oidcop/user_authn/user.py      | 6 +++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index f098e97..5385d22 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -742,6 +742,9 @@ class Authorization(Endpoint):
                     except Revoked:
                         logger.debug("Authentication session revoked!!")
                         identity = None
+                    except (KeyError, ValueError):
+                        logger.debug("Authentication session no longer exists")
+                        identity = None
                     else:
                         logger.debug(f"Session info type: {_csi.__class__.__name__}")
                         if _csi.is_active() is False:
diff --git a/src/oidcop/user_authn/user.py b/src/oidcop/user_authn/user.py
index 3cf58e7..c517b68 100755
--- a/src/oidcop/user_authn/user.py
+++ b/src/oidcop/user_authn/user.py
@@ -115,7 +115,11 @@ class UserAuthnMethod(object):
             for val in cookie:
                 _info = json.loads(val["value"])
                 _info["timestamp"] = int(val["timestamp"])
-                session_id = _context.session_manager.decrypt_session_id(_info["sid"])
+                try:
+                    session_id = _context.session_manager.decrypt_session_id(_info["sid"])
+                except ValueError:
+                    # Not a session this server could know about
+                    continue
                 logger.debug("cookie_info: session id={}".format(session_id))
                 # _, cid, _ = _context.session_manager.decrypt_session_id(_info["sid"])
                 if session_id[1] != client_id:
-- 
2.43.0


From 2b3286826d08bd14848d2f8f880c56d70a67335d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:14 +0000
Subject: [PATCH 86/91] fix: a bearer token that nobody looked up does not
 identify a client

---
 src/oidcop/client_authn.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/oidcop/client_authn.py b/src/oidcop/client_authn.py
index 8f12da3..f5b59fc 100755
--- a/src/oidcop/client_authn.py
+++ b/src/oidcop/client_authn.py
@@ -172,11 +172,8 @@ class BearerBody(ClientSecretPost):
         if _token is None:
             raise AuthnFailure("No access token")
 
-        res = {"token": _token}
-        _client_id = request.get("client_id")
-        if _client_id:
-            res["client_id"] = _client_id
-        return res
+        # Which client it is follows from the token, not from what the request claims
+        return {"token": _token}
 
 
 class JWSAuthnMethod(ClientAuthnMethod):
@@ -426,6 +423,9 @@ def verify_client(
             raise BearerTokenAuthenticationError("Expired token")
         except KeyError:
             raise BearerTokenAuthenticationError("Unknown token")
+    elif _token is not None:
+        logger.warning("Nothing is known about bearer tokens at this endpoint")
+        return {}
 
     return auth_info
 
-- 
2.43.0


From ac5c25c6bc1861db0e42e07870365d98f9e86908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:14 +0000
Subject: [PATCH 87/91] fix: a request object identifies a client only when
 signed and meant for this server

---
 src/oidcop/client_authn.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/oidcop/client_authn.py b/src/oidcop/client_authn.py
index f5b59fc..946cddd 100755
--- a/src/oidcop/client_authn.py
+++ b/src/oidcop/client_authn.py
@@ -292,6 +292,18 @@ class RequestParam(ClientAuthnMethod):
             logger.info("%s" % sanitize(err))
             raise AuthnFailure("Could not verify client_assertion.")
 
+        # Something that is only encrypted can come from anyone
+        if _jwt.jws_header is None:
+            raise AuthnFailure("The request object is not signed")
+
+        _aud = _jwt.get("aud")
+        if _aud:
+            _endpoint = kwargs.get("endpoint")
+            _targets = _endpoint.allowed_target_uris() if _endpoint else set()
+            _targets.add(_context.issuer)
+            if not _targets.intersection([_aud] if isinstance(_aud, str) else _aud):
+                raise NotForMe("Not for me!")
+
         # If there is a jti use it to make sure one-time usage is true
         _jti = _jwt.get("jti")
         if _jti:
-- 
2.43.0


From ccfd6e1c9462c06edae51744d3b1300d1fd08131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:05 +0000
Subject: [PATCH 88/91] fix: starting a server leaves the configuration as it
 is

---
 src/oidcop/server.py        | 21 ++++-----------------
 src/oidcop/token/handler.py |  3 +++
 src/oidcop/util.py          |  8 +++-----
 3 files changed, 10 insertions(+), 22 deletions(-)

diff --git a/src/oidcop/server.py b/src/oidcop/server.py
index 1972aff..3938796 100644
--- a/src/oidcop/server.py
+++ b/src/oidcop/server.py
@@ -1,3 +1,4 @@
+import copy
 from typing import Any
 from typing import Optional
 from typing import Union
@@ -20,26 +21,12 @@ from oidcop.util import build_endpoints
 
 
 def do_endpoints(conf, server_get):
-    endpoints = build_endpoints(conf["endpoint"], server_get=server_get, issuer=conf["issuer"])
-
-    _cap = conf.get("capabilities", {})
-
-    for endpoint, endpoint_instance in endpoints.items():
-        if endpoint in ["webfinger", "provider_config"]:
-            continue
-
-        if endpoint_instance.endpoint_info:
-            for key, val in endpoint_instance.endpoint_info.items():
-                if key not in _cap:
-                    _cap[key] = val
-
-    return endpoints
+    return build_endpoints(conf["endpoint"], server_get=server_get, issuer=conf["issuer"])
 
 
 def get_capabilities(conf, endpoints):
-    _cap = conf.get("capabilities", {})
-    if _cap is None:
-        _cap = {}
+    # This becomes the provider info, the configuration has to stay as it is
+    _cap = copy.deepcopy(conf.get("capabilities")) or {}
 
     for endpoint, endpoint_instance in endpoints.items():
         if endpoint in ["webfinger", "provider_config"]:
diff --git a/src/oidcop/token/handler.py b/src/oidcop/token/handler.py
index b5eb9d8..40e3b80 100755
--- a/src/oidcop/token/handler.py
+++ b/src/oidcop/token/handler.py
@@ -1,3 +1,4 @@
+import copy
 import logging
 import os
 from typing import Optional
@@ -204,6 +205,8 @@ def factory(
         ("refresh", refresh, "refresh_token"),
     ]:
         if cnf is not None:
+            # What is added here doesn't belong in the configuration
+            cnf = copy.deepcopy(cnf)
             if default_token(cnf):
                 _add_passwd(kj, cnf, cls)
             args[attr] = init_token_handler(server_get, cnf, token_class_map[cls])
diff --git a/src/oidcop/util.py b/src/oidcop/util.py
index a90aa26..b31a315 100755
--- a/src/oidcop/util.py
+++ b/src/oidcop/util.py
@@ -201,11 +201,9 @@ def allow_refresh_token(endpoint_context):
 
     # Is refresh_token grant type supported
     _token_supported = False
-    _cap = endpoint_context.conf.get("capabilities")
-    if _cap:
-        if "refresh_token" in _cap["grant_types_supported"]:
-            # self.allow_refresh = kwargs.get("allow_refresh", True)
-            _token_supported = True
+    if "refresh_token" in endpoint_context.provider_info.get("grant_types_supported", []):
+        # self.allow_refresh = kwargs.get("allow_refresh", True)
+        _token_supported = True
 
     if refresh_token_handler and _token_supported:
         return True
-- 
2.43.0


From c7a2f809f553d55061477422f08a72bc3f91fdc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:33:10 +0000
Subject: [PATCH 89/91] fix: an ID token lifetime next to its arguments leaves
 the configuration as it is

---
 src/oidcop/token/handler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/token/handler.py b/src/oidcop/token/handler.py
index 40e3b80..6f499c9 100755
--- a/src/oidcop/token/handler.py
+++ b/src/oidcop/token/handler.py
@@ -212,6 +212,8 @@ def factory(
             args[attr] = init_token_handler(server_get, cnf, token_class_map[cls])
 
     if id_token is not None:
-        args["id_token"] = init_token_handler(server_get, id_token, token_class="")
+        args["id_token"] = init_token_handler(
+            server_get, copy.deepcopy(id_token), token_class=""
+        )
 
     return TokenHandler(**args)
-- 
2.43.0


From 9155c4110ace6fba0b649dbd0b17e46c6092d05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:29:35 +0000
Subject: [PATCH 90/91] fix: an undefined request parameter doesn't lift
 max_age

---
 src/oidcop/oauth2/authorization.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index 5385d22..01cff4b 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -713,10 +713,7 @@ class Authorization(Endpoint):
         _max_age = None
         try:
             _auth_info = kwargs.get("authn", "")
-            if "upm_answer" in request and request["upm_answer"] == "true":
-                _max_age = None
-            else:
-                _max_age = max_age(request)
+            _max_age = max_age(request)
             logger.debug(f"Max age: {_max_age}")
             identity, _ts = authn.authenticated_as(
                 client_id, cookie, authorization=_auth_info, max_age=_max_age or 0
-- 
2.43.0


From e44a9b0bba4cf67248ce337424a3b28642589b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:29:35 +0000
Subject: [PATCH 91/91] fix: a redirect URI whose query repeats a value is
 another URI

---
 src/oidcop/oauth2/authorization.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index 01cff4b..1fb801b 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -201,6 +201,8 @@ def verify_query(query, rquery):
             for val in vals:
                 if val not in rquery[key]:
                     raise ValueError("Extra {}={} value in query part".format(key, val))
+            if len(vals) != len(rquery[key]):
+                raise ValueError("{} repeated in query part".format(key))
 
 
 def join_query(base, query):
-- 
2.43.0

