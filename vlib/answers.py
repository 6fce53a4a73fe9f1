"""Parses the daemons' answers, strictly."""
import json
import xml.etree.ElementTree as ET

from .core import Violation


class Answer:
    __slots__ = ("uri", "xpath", "data", "subst")

    def __init__(self, uri, xpath, data, subst=None):
        self.uri = uri
        self.xpath = xpath
        self.data = data
        self.subst = subst

    def key(self):
        # data is markup: leading/trailing blanks carry no meaning
        return (self.uri, self.xpath,
                self.data.strip() if self.data is not None else None)


class AnswerSet:
    pass


def bad(msg, body, files):
    f = dict(files or {})
    f["response"] = body
    raise Violation(msg + "\nresponse: %r" % body[:1500], "", f)


def _local(tag):
    return tag.rsplit("}", 1)[-1]


def parse_xml(resp, files=None):
    if resp.status != 200:
        bad("query answered with status %d" % resp.status, resp.body, files)
    try:
        root = ET.fromstring(resp.body)
    except ET.ParseError as e:
        bad("answer is not well-formed XML: %s" % e, resp.body, files)
    if _local(root.tag) != "answset":
        bad("answer root is %s" % root.tag, resp.body, files)
    a = AnswerSet()
    try:
        a.size = int(root.get("size"))
        a.total = int(root.get("total"))
    except (TypeError, ValueError):
        bad("size/total missing", resp.body, files)
    a.answers = []
    for el in root:
        if _local(el.tag) != "answ":
            bad("unexpected element %s" % el.tag, resp.body, files)
        subst = []
        data = None
        for c in el:
            if _local(c.tag) == "substpair":
                subst.append((c.get("qvar"), c.get("xpath")))
            elif _local(c.tag) == "data":
                if data is not None:
                    bad("two data elements", resp.body, files)
                data = c.text or ""
                if len(c):
                    bad("markup inside data", resp.body, files)
            else:
                bad("unexpected element %s" % c.tag, resp.body, files)
        a.answers.append(Answer(el.get("uri"), el.get("xpath"), data, subst))
    if a.size != len(a.answers):
        bad("size=%d but %d answers" % (a.size, len(a.answers)), resp.body,
            files)
    return a


def parse_json(resp, files=None):
    if resp.status != 200:
        bad("query answered with status %d" % resp.status, resp.body, files)
    try:
        o = json.loads(resp.body.decode("utf-8"))
    except ValueError as e:
        bad("answer is not valid JSON: %s" % e, resp.body, files)
    a = AnswerSet()
    try:
        a.total = o["total"]
        a.qvars = [(v["name"], v["xpath"]) for v in o["qvars"]]
        a.answers = []
        for h in o["hits"]:
            ids = h["math_ids"]
            if len(ids) != 1:
                bad("hit with %d math_ids" % len(ids), resp.body, files)
            a.answers.append(Answer(ids[0]["url"], ids[0]["xpath"],
                                    h["xhtml"]))
    except (KeyError, TypeError) as e:
        bad("JSON answer lacks %s" % e, resp.body, files)
    return a


def parse_ids(resp, files=None):
    if resp.status != 200:
        bad("query answered with status %d" % resp.status, resp.body, files)
    try:
        o = json.loads(resp.body.decode("utf-8"))
    except ValueError as e:
        bad("id answer is not valid JSON: %s" % e, resp.body, files)
    a = AnswerSet()
    try:
        a.total = o["total"]
        a.ids = o["ids"]
        a.qvars = [(v["name"], v["xpath"]) for v in o["qvars"]]
    except (KeyError, TypeError) as e:
        bad("id answer lacks %s" % e, resp.body, files)
    return a
