"""Grant types of a deployment's own, plugged into the token endpoint through `grant_types_supported`."""
SEEN = []       # (stage, mark, client id) of every request that reached a helper


class Handover:
    """Answers with the access token it was shown, and says who asked."""

    def __init__(self, endpoint, config=None):
        self.endpoint, self.mark = endpoint, (config or {}).get("mark", "default")

    def post_parse_request(self, request, client_id="", **kwargs):
        SEEN.append(("parse", self.mark, client_id))
        if "subject_token" not in request:
            return self.endpoint.error_cls(error="invalid_target", error_description="No subject_token")
        return request

    def process_request(self, request, **kwargs):
        SEEN.append(("process", self.mark, request["client_id"]))
        return {"access_token": request["subject_token"], "token_type": "Bearer", "mark": self.mark, "asked_by": request["client_id"]}
