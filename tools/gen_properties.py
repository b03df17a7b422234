"""Writes /verif/properties.jsonl (kept as Python so that it is easy to edit)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": ["src/oidcop/" + f for f in files],
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(observe), "hook_needed": None}})

prop("C01", "An authorization code yields tokens at most once",
     "For every history of token requests (sequential replays, requests parsed before another one is processed, any client, any clock value) an authorization code is exchanged for tokens at most once. At an OpenID Connect token endpoint a replay of a used code is refused and every token that was derived from that code, directly or through refresh, stops being usable, while tokens from other codes stay usable.",
     ["histories", "schedules", "inputs"],
     "all sequences/interleavings of parse and process of token requests over several codes, grants and clients, with refreshes in between and per-client usage rules",
     "Existing tests present one code twice, in order, with one configuration; they never interleave two requests, never mix refresh chains, and never look at what happens to unrelated tokens.",
     ["oauth2/token.py", "oidc/token.py", "session/token.py", "session/grant.py"],
     [("used counter / max_usage of an authorization code", "src/oidcop/session/token.py Item.max_usage_reached, AuthorizationCode.set_defaults"),
      ("refusal and recursive revocation on replay", "src/oidcop/oidc/token.py AccessTokenHelper.post_parse_request"),
      ("minting refused from an inactive parent", "src/oidcop/session/grant.py Grant.mint_token")],
     [("issued_token", "tokens minted under a grant, with used/revoked/based_on", "session/grant.py Grant")],
     ["token endpoint", "userinfo endpoint", "introspection endpoint"])

prop("C02", "A code works only for the client and redirect URI it was issued for",
     "A token request redeems a code only if it comes from the client the code was issued to, carries exactly the redirect URI of the authorization request, arrives while the code has not expired, and presents an authorization code rather than another kind of token; every other combination yields an error and no token, and leaves the code redeemable by its rightful owner.",
     ["inputs", "histories", "configurations"],
     "all combinations of presenting client, claimed client id, redirect_uri, kind of credential put in the code parameter, and redemption time",
     "Tests cover a handful of single mismatches; the cross product of clients, URIs, token kinds and times, and what remains redeemable afterwards, is untested.",
     ["oauth2/token.py", "oidc/token.py", "session/manager.py"],
     [("client check and redirect_uri comparison", "src/oidcop/oidc/token.py and oauth2/token.py AccessTokenHelper.process_request"),
      ("type check and activity check", "AccessTokenHelper.post_parse_request")],
     (), ["token endpoint"])

prop("C03", "PKCE binds a code to the verifier of its requester",
     "When PKCE is enabled, a code obtained with a code challenge is redeemed only by a request whose code verifier transforms, under exactly the method stated at authorization (plain when none was stated), into that challenge. Authorization requests with an unsupported method, or without a challenge when PKCE is essential for that client or the server, are refused.",
     ["inputs", "configurations", "histories"],
     "all verifier/challenge/method triples incl. mutations, downgrades and cross-method confusions; all supported-method sets; server-level and client-level essential settings",
     "Tests use one or two fixed verifiers with S256 and plain; verifiers near the true one, verifiers equal to the challenge, missing/empty verifiers and per-client settings in combination are not explored.",
     ["oidc/add_on/pkce.py"],
     [("challenge method whitelist and essential check", "post_authn_parse"), ("verifier comparison", "post_token_parse / verify_code_challenge")],
     (), ["authorization endpoint", "token endpoint"])

prop("C04", "A token is honoured exactly while it is live",
     "At every moment of every history, the userinfo, introspection and token (refresh) endpoints honour a token if and only if this server issued it, it is of the kind that endpoint takes, and neither the token has expired nor has it, its session or its grant been revoked (for userinfo additionally the user's authentication, and for refreshing the grant, must still be valid). Introspection answers every other string with an inactive response that discloses nothing else.",
     ["histories", "inputs", "configurations"],
     "all histories of login, code exchange, refresh, revocation (token, grant, client session, logout), clock advance; both opaque and JWT token formats; OIDC and plain OAuth2 flavours; arbitrary and corrupted token strings",
     "Tests check single tokens immediately after minting; the joint effect of lifetimes at several layers, revocations at several layers and token formats over a history is not sampled.",
     ["session/token.py", "session/grant.py", "session/manager.py", "oidc/userinfo.py", "oauth2/introspection.py", "oidc/token.py", "token/jwt_token.py", "token/__init__.py"],
     [("activity predicate", "src/oidcop/session/token.py Item.is_active"), ("token class check", "oidc/userinfo.py process_request, oauth2/introspection.py _introspect"), ("JWT/opaque token verification", "token/handler.py TokenHandler.info")],
     [("expires_at/not_before/revoked/used", "life state of a token or grant", "session/token.py Item")],
     ["userinfo endpoint", "introspection endpoint", "token endpoint"])

prop("C05", "Revocation reaches exactly what it must",
     "Revoking a token recursively invalidates that token and every token derived from it, and no other; revoking a grant stops all minting under it; revoking a client session invalidates every grant of that user at that client and of no other user or client; once revoked nothing becomes valid again and nothing can be minted from it.",
     ["histories"],
     "all token-derivation forests and all sequences of mint/revoke operations over several users, clients and grants",
     "Tests revoke one token in a one-level tree; arbitrary forests, repeated and overlapping revocations and neighbour isolation are not covered.",
     ["session/manager.py", "session/grant.py", "session/token.py", "session/info.py"],
     [("recursive revocation", "session/grant.py Grant.revoke_token, session/manager.py _revoke_dependent"), ("session revocation", "session/manager.py revoke_client_session, revoke_grant")],
     (), ["session manager API", "token/introspection/userinfo endpoints"])

prop("C06", "Scopes never grow",
     "Scopes reported or embedded in anything issued are a subset of those the user granted for that authorization request; a refreshed token never carries a scope its refresh token's parent did not have, whatever chain of down-scoping refreshes preceded it, and asking for more is refused. Scopes not allowed for the client never show up in the authorization response, never unlock claims, and are refused outright when unknown scopes are configured to be denied.",
     ["histories", "inputs", "configurations"],
     "all requested scope sets, client scope allow-lists, scope-to-claims maps, refresh chains with arbitrary requested subsets and supersets",
     "Tests do one refresh with one narrower scope; chains of down- and up-scoping refreshes and per-client allow-lists in combination are not explored.",
     ["oidc/token.py", "oauth2/token.py", "session/grant.py", "scopes.py", "oauth2/authorization.py"],
     [("scope subset check on refresh", "RefreshTokenHelper.post_parse_request"), ("scope inheritance", "Grant.find_scope"), ("per client filter", "Scopes.filter_scopes, check_unknown_scopes_policy")],
     (), ["authorization endpoint", "token endpoint", "introspection endpoint", "userinfo endpoint"])

prop("C07", "Only a client that proves itself is authenticated",
     "An endpoint treats a request as coming from a client only if, by a method that endpoint is configured with, it proves knowledge of that client's secret or possession of that client's registered key, in an assertion signed by that client with an algorithm of the right kind, addressed to this endpoint, unexpired (give or take the small clock skew tolerated) and, when it carries an identifier, not presented before; expired or unknown clients are refused. A correct proof by an allowed method is accepted and attributed to that very client.",
     ["inputs", "histories", "configurations"],
     "all combinations of configured methods, credentials (right, wrong, swapped, mutated), assertion signers, algorithms, audiences, expiry times, jti reuse, and several credentials in one request",
     "Tests try each method with one good and one bad credential; mixtures, swapped identities, algorithm confusion, replay and the clock are not explored jointly.",
     ["client_authn.py", "endpoint.py"],
     [("method dispatch", "client_authn.py verify_client"), ("assertion verification", "JWSAuthnMethod.verify"), ("expired client", "valid_client_info")],
     [("jti_db", "assertion ids already seen", "endpoint_context.py")], ["every endpoint with client_authn_method"])

prop("C08", "Users are only ever redirected to registered URIs",
     "Whatever redirect_uri or post-logout redirect URI a request carries, the server hands out a code, token, error or logout redirect only towards a URI that is registered for that client (same base, exactly the registered query parameters and values, no fragment), and a registered URI presented as registered is accepted. URIs of other clients and near-miss variants are refused.",
     ["inputs", "configurations"],
     "all registered URI sets (with and without query parts) and all presented URIs, in particular mutations of registered ones (encoding, case, path, port, userinfo, query order/extra/missing/duplicate, fragments, control characters)",
     "Tests compare a dozen fixed URIs; the space of near-miss URIs and their encodings is what attackers search.",
     ["oauth2/authorization.py", "oidc/session.py", "util.py"],
     [("URI comparison", "oauth2/authorization.py verify_uri, get_uri"), ("split into base and query", "util.py split_uri")],
     (), ["authorization endpoint", "end-session endpoint"])

prop("C09", "Authorization responses carry exactly what was asked, where it was asked",
     "A successful authorization response contains exactly the credentials the response type names, the request's state unchanged, the issuer and client id, and tokens that belong to this user, client and session; it is placed in query, fragment or form post according to response type and mode, and parsing the produced URL or HTML form yields exactly those values whatever characters the values contain. Error responses carry the state and none of the credentials; response types that the client is not registered for, and response modes that are unknown or cannot carry the response, are refused.",
     ["inputs", "configurations"],
     "all response types and modes, registered response type sets, arbitrary Unicode/markup state and nonce values, redirect URIs with and without query parts",
     "Tests look at a few response types with the state 'STATE'; arbitrary state strings through URL and HTML encoders and all type/mode combinations are not tested.",
     ["oauth2/authorization.py", "oidc/authorization.py", "endpoint.py"],
     [("response construction", "oauth2/authorization.py create_authn_response, response_mode, authz_part2"), ("placement", "endpoint.py do_response")],
     (), ["authorization endpoint do_response"])

prop("C10", "The session store behaves like a user/client/grant tree",
     "After any sequence of create, read, update, revoke and remove operations the session store answers every query as a tree user > client > grant would: what was stored under a path is what is read there, missing paths are reported as missing, siblings are unaffected, and emptied parents disappear with their last child.",
     ["histories"],
     "all operation sequences over several users, clients and grants, including re-creation after removal and identifiers with unusual characters",
     "Tests run one fixed sequence per operation; arbitrary interleavings of set/get/delete over shared prefixes are not sampled.",
     ["session/database.py", "session/manager.py", "session/info.py"],
     [("hierarchical store", "session/database.py Database.set/get/delete/update"), ("session operations", "session/manager.py")],
     [("db", "flat dictionary keyed by joined path", "session/database.py"), ("subordinate", "children list of a node", "session/info.py")],
     ["session manager API"])

prop("C11", "A restored server continues where the dumped one stopped",
     "Dumping a server's state at any point of any history, passing it through JSON and loading it into a freshly started server with the same configuration gives a server that answers every later request the same way: same tokens live or dead, same claims and scopes, same single-use and lineage bookkeeping, same registered clients, pushed requests, registration access tokens and spent assertion ids.",
     ["crash_points", "histories"],
     "all histories cut at every position, with dump/JSON/load into a new instance at the cut, compared step by step with the instance that was not restarted",
     "The persistence test dumps one code-flow session once and checks a few attributes; other session shapes and cut points are untested.",
     ["session/database.py", "session/grant.py", "session/token.py", "session/info.py", "session/manager.py", "endpoint_context.py", "token/handler.py", "server.py"],
     [("dump/load of each class", "oidcmsg.impexp.ImpExp parameter maps in the listed classes"), ("token list (de)serialisation", "session/grant.py issued_token_dump/issued_token_load")],
     (), ["endpoint_context.dump/load", "every endpoint after load"])

prop("C12", "Cookies round-trip and cannot be forged or altered",
     "Whatever value and type a cookie is made with, parsing that cookie with the same keys returns exactly that value, type and timestamp; a cookie that was altered in any byte, made with other keys, or assembled from parts of other cookies never yields a value that was not put there by the server, and cookies of other names are ignored.",
     ["inputs"],
     "all values, types and timestamps (any Unicode, including separators), both key configurations (sign only, encrypt+sign), all single and multiple mutations and splices of produced cookies",
     "Tests use a few ASCII values and two hand-made alterations; separators inside values and splices of valid cookies are not explored.",
     ["cookie_handler.py", "util.py"],
     [("signing/encryption", "CookieHandler._sign_enc_payload, _ver_dec_content"), ("framing", "make_cookie_content/parse_cookie, lv_pack/lv_unpack")],
     (), ["cookie handler API"])

prop("C13", "Subject identifiers follow the client's subject type",
     "The subject identifier of a user is stable across requests; a public one is equal at all clients, a pairwise one is equal inside a sector and different between sectors, an ephemeral one is fresh for every session; different users never share one and none of them reveals the user id. The same identifier is used consistently in ID token, userinfo, introspection and access token of a session.",
     ["inputs", "histories", "configurations"],
     "all user ids, sectors, salts, subject types and configurations of the subject functions; all ways a session is established",
     "Tests compute one identifier of each type; collisions, stability and agreement over endpoints over many users, sectors and clients are not tested.",
     ["session/manager.py", "oauth2/authorization.py", "token/id_token.py", "oidc/userinfo.py", "oauth2/introspection.py"],
     [("identifier functions", "session/manager.py public_id, pairwise_id, ephemeral_id, PairWiseID, PublicID"), ("choice per session", "session/manager.py create_grant")],
     (), ["ID token", "userinfo", "introspection", "JWT access token"])

prop("C14", "Every ID token is a correct statement about its session",
     "Every ID token handed out verifies under a published key with the algorithm agreed for the client, has this issuer, the client in its audience, the session's subject, the nonce of the request it answers (and none otherwise), the true authentication time and class, an expiry equal to issue time plus the configured lifetime, and code and access-token hashes that match the values delivered with it; user claims can never replace these protocol claims. For a client that registered an encryption algorithm the ID token comes encrypted to that client's keys with that algorithm, and for no other.",
     ["inputs", "configurations", "histories"],
     "all response types, nonces, signing and encryption algorithms per client and per server default, lifetimes, user attribute sets (including ones named like protocol claims), clock values, refreshes",
     "Tests check selected claims in single configurations; the joint space of algorithms, response types, user databases with hostile attribute names and clock values is not covered.",
     ["token/id_token.py", "session/grant.py", "oauth2/authorization.py", "oidc/token.py"],
     [("payload", "token/id_token.py IDToken.payload"), ("algorithm choice", "get_sign_and_encrypt_algorithms")],
     (), ["authorization endpoint", "token endpoint"])

prop("C15", "Only claims that were authorised are released",
     "Userinfo, ID token, introspection and JWT access token disclose a user claim only if it follows from the configuration of that release point, from scopes that are granted and enabled there, or from the claims request for that release point, and only when value and values constraints in the claims request are met; every claim so authorised that the user has is disclosed. One session's or client's requests never change what is released for another.",
     ["inputs", "configurations", "histories"],
     "all combinations of server base/always claims, per-client add_claims rules, scopes, claims requests with essential/value/values, user attribute sets, sequences of sessions over clients",
     "Tests use fixed combinations; the algebra of four release points times five sources and leakage between successive sessions is not sampled.",
     ["session/claims.py", "session/grant.py", "oidc/userinfo.py", "oauth2/introspection.py", "token/id_token.py", "scopes.py", "user_info/__init__.py"],
     [("claims computation", "session/claims.py ClaimsInterface"), ("matching", "claims_match")],
     (), ["userinfo", "ID token", "introspection", "access token"])

prop("C16", "Client registration accepts only sound metadata and stores what it answers",
     "Dynamic registration accepts a request only if its redirect URIs obey the application-type rules (https unless code only, no fragment, native clients on loopback or custom schemes) every requested algorithm, method and type is among those offered, and the pages it names are on an origin of its redirect URIs; a refused request leaves no usable client or credential behind. An accepted one yields a fresh client id, a working unexpired secret and exactly the metadata that was accepted, which only the holder of that client's registration access token can read back.",
     ["inputs", "histories", "configurations"],
     "all combinations of application type, response types, redirect URIs, algorithms, URIs with query and fragment, sector identifiers, and histories of registrations and reads with any token/client id pair",
     "Tests register a few documents; near-valid documents, the state left by refused ones and cross-client reads are not covered.",
     ["oidc/registration.py", "oidc/read_registration.py", "client_authn.py"],
     [("capability match", "Registration.match_client_request"), ("redirect URI rules", "Registration.verify_redirect_uris"), ("registration access token check", "RegistrationRead.get_client_id_from_token")],
     [("cdb", "client database", "endpoint_context.py"), ("registration_access_token", "token to client map", "endpoint_context.py")],
     ["registration endpoint", "registration read endpoint", "later authorization/token requests"])

prop("C17", "Logout ends exactly the sessions it is meant to end",
     "After a verified logout the chosen client session (or, for a logout from everywhere, every session of that user at each notified client) no longer yields or honours tokens, and no other user's session is touched; each back-channel client receives one logout token that is correctly signed and addressed and names its own session, front-channel clients get a frame for their own URI. A logout is only prepared for the session named by the server's own cookie, a matching ID-token hint and a registered post-logout redirect URI, and only the server's own signed confirmation carries it out.",
     ["histories", "inputs", "configurations"],
     "all sets of users, clients (back-/front-channel or neither), sessions and logout requests with right and wrong cookies, hints, states and URIs",
     "Tests log one user out of one or two fixed clients; several users and sessions, neighbours' tokens after logout and hostile hints/URIs are not covered.",
     ["oidc/session.py", "session/manager.py"],
     [("request validation", "oidc/session.py Session.process_request"), ("logout fan-out", "Session.logout_all_clients, logout_from_client, do_back_channel_logout"), ("session revocation", "session/manager.py revoke_client_session")],
     (), ["end-session endpoint", "back-channel posts", "token/userinfo endpoints afterwards"])

prop("C18", "Usage rules decide what is minted, how often and for how long",
     "What a code or refresh token may be exchanged for, how long each issued token lives, and whether a refresh token is reissued or retired on use follow the usage rules in force, where a client's own rules override the server's per token kind and neither leak to other clients or later sessions nor alter the configuration. The lifetime announced to the client, the lifetime inside a JWT token and the lifetime enforced are one and the same.",
     ["configurations", "histories"],
     "all server-level and client-level usage rules (supported minting, lifetimes, max usage, refresh reissue/retire options), several clients in one history",
     "Tests fix one rule set per file; precedence, aliasing between clients and repeated sessions are not explored.",
     ["authz/__init__.py", "session/grant.py", "session/token.py", "oauth2/token.py", "oidc/token.py", "oauth2/authorization.py"],
     [("rule merge", "authz/__init__.py AuthzHandling.usage_rules"), ("minting check", "session/grant.py Grant.mint_token"), ("lifetime", "TokenEndpointHelper._mint_token")],
     (), ["token endpoint", "introspection endpoint"])

prop("C19", "Pushed and signed requests cannot be altered, swapped or replayed",
     "A pushed authorization request is usable once, by its reference, and gives exactly the authorization that was pushed; unknown or spent references are refused. Parameters inside a signed request object override those outside it, and request objects that are not signed by the requesting client with an allowed algorithm, or are fetched from an unregistered location, are refused.",
     ["inputs", "histories", "configurations"],
     "all parameter sets split between inside and outside, all signers and algorithms, sequences of push and use over several clients",
     "Tests push and use one request and pass one request object; conflicts between inner and outer parameters, reuse and wrong signers are hardly covered.",
     ["oauth2/pushed_authorization.py", "oauth2/authorization.py"],
     [("one-time reference", "oauth2/authorization.py _do_request_uri"), ("algorithm whitelist", "AllowedAlgorithms")],
     [("par_db", "pushed requests", "endpoint_context.py")], ["pushed authorization endpoint", "authorization endpoint"])

prop("C20", "Provider metadata tells the truth about the server",
     "For every configuration the published provider metadata names this issuer, the actual URL of every configured endpoint and no others, the key location, and supports-lists that agree with what the endpoints really accept: offered scopes, claims, response types, authentication classes and methods are the configured ones, and repeated or concurrent reads never change it. Discovery answers a resource query with this issuer.",
     ["configurations", "inputs"],
     "all endpoint subsets, paths, issuers with and without trailing slash, capability sets and add-ons",
     "Tests check one configuration; agreement between what is published and what is enforced over configurations is not tested.",
     ["oidc/provider_config.py", "oidc/discovery.py", "endpoint_context.py", "server.py", "util.py", "construct.py"],
     [("collection of endpoint capabilities", "server.py get_capabilities, endpoint_context.py create_providerinfo"), ("endpoint URL", "util.py build_endpoints")],
     (), ["provider configuration endpoint", "discovery endpoint"])

prop("C21", "Introspection and userinfo answers are accurate and well protected",
     "An active introspection answer states the token's real scope, client, subject, issue and expiry time, audience, kind and issuer, and the user name only when the server is configured to release it. A userinfo answer always carries the session's subject, goes to the client the token belongs to, and is plain JSON, signed with the client's algorithm, or encrypted to the client's key exactly as that client registered, with the same content in all forms.",
     ["inputs", "configurations", "histories"],
     "all clients' signing/encryption preferences, scopes, audiences, token kinds and user attribute sets",
     "Tests look at one signed and a few plain answers; agreement of all fields with the minting history over configurations is not tested.",
     ["oauth2/introspection.py", "oidc/userinfo.py"],
     [("introspection answer", "oauth2/introspection.py _introspect"), ("response protection", "oidc/userinfo.py do_response")],
     (), ["introspection endpoint", "userinfo endpoint"])

prop("C22", "DPoP proofs bind tokens to the key that proved itself",
     "With DPoP enabled, a token request is served only if its proof is signed by the key it carries and names the very URL and method of the request; tokens issued are then of type DPoP and carry the thumbprint of exactly that key. Any altered proof, foreign signature, wrong URL or wrong method is refused, and no token is issued.",
     ["inputs", "histories"],
     "all key types, methods, URLs, header and payload mutations, signature swaps, and refreshes with other keys",
     "Tests run one good proof; the negative space and key changes over refreshes are untested.",
     ["oauth2/add_on/dpop.py", "oidc/token.py", "oauth2/token.py", "session/grant.py"],
     [("proof verification", "DPoPProof.verify_header, post_parse_request"), ("confirmation claim", "session/grant.py payload_arguments")],
     (), ["token endpoint", "JWT access token"])

prop("C23", "Malformed input never yields credentials or corrupts state",
     "For every byte string or parameter set sent to any endpoint, the outcome is an error (a returned error message or an exception the web layer reports as invalid request) or a legitimate success that the request was entitled to; erroneous requests issue no credential, register nobody, revoke nothing, and leave every live session, code and token as usable as before.",
     ["inputs", "histories"],
     "all raw requests, parameter mutations, duplicated/missing/mistyped parameters, odd headers and cookies against every endpoint of a server with live sessions",
     "Tests send well-formed requests or one specific defect each.",
     ["endpoint.py", "oauth2/authorization.py", "oauth2/token.py", "oidc/token.py", "oidc/userinfo.py", "oauth2/introspection.py", "oidc/registration.py", "oidc/session.py", "token/handler.py"],
     [("request parsing and verification", "endpoint.py Endpoint.parse_request"), ("error messages", "error_cls of each endpoint")],
     (), ["all endpoints", "session manager state before and after"])

prop("C24", "Authentication freshness and prompts are respected",
     "An existing login is reused only for the same user at the same client while it is unexpired, unrevoked and not older than the requested maximum age; prompt=login always leads to a new login, prompt=none never shows one and answers login_required when one would be needed, and a login hint (or an ID Token given as hint) for another user is not satisfied by the present user. The method of a new login is one whose class the request asked for when such a class is configured, and every session records the user, class and time of the login it really stems from.",
     ["histories", "inputs", "configurations"],
     "all histories of logins by several users at several clients, cookies presented in any combination, prompt/max_age/acr/hint parameters, clock advances and revocations in between",
     "Tests exercise setup_auth branches one by one with hand-made cookies; histories with clock and revocation and wrong-client cookies are not explored.",
     ["oauth2/authorization.py", "oidc/authorization.py", "user_authn/user.py", "user_authn/authn_context.py", "authn_event.py"],
     [("reuse decision", "oauth2/authorization.py setup_auth"), ("cookie evaluation", "user_authn/user.py authenticated_as, cookie_info"), ("method choice", "user_authn/authn_context.py pick_auth, AuthnBroker")],
     (), ["authorization endpoint"])

prop("C25", "Tokens and session identifiers are unforgeable and unambiguous",
     "Every issued code, token and session identifier is unique, and is recognised as exactly the kind and session it was issued for; any altered value, any value issued under other keys or by another server, and any value of another kind is not recognised. Encoding and decoding of the underlying containers is lossless for every content.",
     ["inputs", "configurations"],
     "all session ids, token kinds, formats (opaque, JWT), lifetimes, and all byte-level mutations, truncations, splices and cross-server presentations of issued values",
     "Tests check that one token decodes; the mutation neighbourhood, foreign keys and kind confusion are not searched.",
     ["token/__init__.py", "token/jwt_token.py", "token/handler.py", "util.py", "session/database.py"],
     [("opaque token container", "token/__init__.py DefaultToken, util.py lv_pack/lv_unpack/Crypt"), ("JWT token verification", "token/jwt_token.py get_payload/info"), ("session id encryption", "session/database.py encrypted_session_id/decrypt_session_id")],
     (), ["token handler API", "session manager API"])

prop("C26", "Servers, clients and configurations are isolated from each other",
     "Serving requests never alters the configuration, a client's registered metadata (other than recorded authentication methods) or library defaults, so a server's answers do not depend on which unrelated requests it, or another server in the same process, handled before; two servers never recognise each other's codes, tokens, sessions or cookies.",
     ["histories", "configurations"],
     "all configurations and interleaved histories over two servers and several clients, comparing each with the same history run alone",
     "Tests build one server each and never compare configuration or answers before and after traffic.",
     ["endpoint_context.py", "server.py", "configure.py", "authz/__init__.py", "session/claims.py", "session/grant.py", "scopes.py"],
     [("copies of configuration", "configure.py EntityConfiguration, authz/__init__.py usage_rules deepcopy"), ("per server state", "endpoint_context.py EndpointContext")],
     (), ["all endpoints"])

prop("C27", "A login needs the user's own credential and completes its own request",
     "Every way of logging in (login page, Basic credentials, symmetric key token) accepts exactly the credentials of a configured user and logs in that user and nobody else; a login page shows exactly the configured texts and the client's registered URIs, whatever characters they contain, and carries a protected record of the authorization request; completing the login with that record gives exactly the response, session, tokens and claims that the same request gives when the user is logged in already, and altered or foreign records are refused.",
     ["inputs", "configurations", "histories"],
     "all user names and passwords and near misses of them, all authorization requests (plain, request object, pushed) with arbitrary parameter values, all client display metadata, pages completed in any order",
     "Tests log in with one ASCII name and password and never compare a login through the page with a direct one.",
     ["user_authn/user.py", "oauth2/authorization.py", "endpoint_context.py", "util.py"],
     [("password verification", "user_authn/user.py UserPassJinja2.verify, BasicAuthn.authenticated_as, SymKeyAuthn.authenticated_as"), ("record of the request", "user_authn/user.py create_signed_jwt, unpack_token; oauth2/authorization.py authn_args_gather"), ("rendering", "user_authn/user.py UserPassJinja2.__call__")],
     (), ["authorization endpoint", "login page", "token and userinfo endpoints afterwards"])

prop("C28", "Secrets do not leave the server",
     "Nothing the server sends - responses and errors of any endpoint, redirects, login pages, cookies, signed tokens, logout frames and messages to other parties - contains, in clear or under a reversible encoding, a server key, password or salt, a user's password, a client's secret or salt, a code verifier, or a code or token issued to somebody else, unless the receiver sent that very value in the same exchange or it is being issued to it; local user names go only to the user's browser unless their release is configured.",
     ["histories", "configurations", "inputs"],
     "all configurations (token formats, cookie protection, login page or not, PKCE, subject types) and histories of valid and broken requests at every endpoint",
     "Tests check that expected members are in a response, never that nothing else is.",
     ["oauth2/authorization.py", "oauth2/pushed_authorization.py", "user_authn/user.py", "oidc/registration.py", "oidc/read_registration.py", "oidc/session.py", "oauth2/introspection.py", "cookie_handler.py", "token/jwt_token.py"],
     [("what a login page carries", "oauth2/authorization.py authn_args_gather"), ("what a pushed request is stored as", "oauth2/pushed_authorization.py process_request"), ("what is put in tokens and introspection answers", "session/grant.py payload_arguments, oauth2/introspection.py")],
     (), ["every endpoint", "cookies", "outgoing requests"])

prop("C29", "The server that runs is the one that was configured",
     "Every setting a configuration gives takes effect as given, whatever form the configuration came in - a dictionary, a JSON or YAML file, a part of a larger configuration - with its relative file names taken relative to the base path and the {domain} and {port} placeholders of its URLs replaced; a setting that is left out gets the documented default, treated the same way and never one that an earlier configuration altered; neither reading a configuration nor starting a server from it changes what the caller passed, and all forms of one configuration give servers that answer alike, also across a restart.",
     ["configurations", "inputs"],
     "all subsets and values of the documented settings, all forms, both configuration classes, base paths, domains and ports, sequences of configurations in one process",
     "Tests load one complete configuration and look at a few of its members.",
     ["configure.py", "server.py", "endpoint_context.py", "session/manager.py", "token/handler.py", "cookie_handler.py"],
     [("completion of settings and defaults", "configure.py EntityConfiguration.__init__"), ("use of settings", "server.py Server.__init__, endpoint_context.py EndpointContext.__init__")],
     (), ["configuration object", "discovery", "authorization, token, userinfo and introspection endpoints", "key files"])

prop("C30", "Add-ons and added grant types touch only the requests that use them",
     "Turning on a feature (PKCE, extra response arguments, extra scopes, a grant type of the deployment's own, login hints, discovery), alone or together with others and in whatever order, leaves the answers to requests that do not use it as they were, apart from what the feature is configured to add; features that are on together each work as they do alone, for every kind of grant. A token request reaches a grant type only after client authentication, and only if the server has that grant type switched on and the client is not limited to others; the answer or error it gives is what the client gets.",
     ["configurations", "histories", "inputs"],
     "all subsets and orders of features, clients limited to some grant types, both flavours, histories of several users and clients of which some use features and one pair does not, well-formed and odd token requests",
     "Tests turn on one add-on at a time and send the requests meant for it.",
     ["endpoint.py", "oauth2/token.py", "oidc/token.py", "oidc/add_on/pkce.py", "oidc/add_on/custom_scopes.py", "oauth2/add_on/extra_args.py", "login_hint.py", "server.py"],
     [("hooks around requests and responses", "endpoint.py Endpoint.do_post_parse_request, do_pre_construct"), ("choice of grant type", "oauth2/token.py Token.configure_grant_types, _post_parse_request, process_request")],
     (), ["authorization endpoint", "token endpoint", "userinfo endpoint", "add-on configuration"])

if __name__ == "__main__":
    with open(os.path.join(HERE, "..", "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
