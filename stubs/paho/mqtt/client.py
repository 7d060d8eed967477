"""Types only: checks hand their own broker to the code under test."""


class MQTTMessage:
    def __init__(self, mid=0, topic=b""):
        self.mid, self.topic, self.payload, self.qos, self.retain = mid, topic, b"", 0, False


class Client:
    def __init__(self, client_id="", clean_session=True, **kw):
        self.client_id = client_id
        self.suppress_exceptions = False
        self.log = [("init", client_id)]

    def reinitialise(self, client_id="", clean_session=True, userdata=None):
        self.log.append(("reinitialise", client_id))

    def username_pw_set(self, username, password=None):
        self.log.append(("auth", username, password))

    def connect(self, host, port=1883, keepalive=60, **kw):
        self.log.append(("connect", host, port, keepalive))
        return 0
