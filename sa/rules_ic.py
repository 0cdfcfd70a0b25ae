"""C23, C24: numbering and selection of interface classes."""
import rules_types
from absint import ClassVal

# attributes from number 2 on, and methods from number 1 on, as the Blue Book (DLMS UA 1000-1) numbers them; a|b: names in use for the same element
STANDARD = {
    (1, 0): ("value", ""),
    (3, 0): ("value scaler_unit", "reset"),
    (4, 0): ("value scaler_unit status capture_time", "reset"),
    (5, 0): ("current_average_value last_average_value scaler_unit status capture_time start_time_current period number_of_periods", "reset next_period"),
    (6, 0): ("register_assignment mask_list active_mask", "add_register add_mask delete_mask"),
    (7, 1): ("buffer capture_objects capture_period sort_method sort_object entries_in_use profile_entries", "reset capture"),
    (8, 0): ("time time_zone status daylight_savings_begin daylight_savings_end daylight_savings_deviation daylight_savings_enabled clock_base",
             "adjust_to_quarter adjust_to_measuring_period adjust_to_minute adjust_to_preset_time preset_adjusting_time shift_time"),
    (9, 0): ("scripts", "execute"),
    (10, 0): ("entries", "enable_disable insert delete"),
    (11, 0): ("entries", "insert delete"),
    (15, 0): ("object_list associated_partners_id application_context_name xDLMS_context_info authentication_mechanism_name LLS_secret|secret association_status",
              "reply_to_HLS_authentication change_HLS_secret add_object remove_object"),
    (15, 1): ("object_list associated_partners_id application_context_name xDLMS_context_info authentication_mechanism_name LLS_secret|secret association_status "
              "security_setup_reference", "reply_to_HLS_authentication change_HLS_secret add_object remove_object"),
    (15, 2): ("object_list associated_partners_id application_context_name xDLMS_context_info authentication_mechanism_name LLS_secret|secret association_status "
              "security_setup_reference user_list current_user", "reply_to_HLS_authentication change_HLS_secret add_object remove_object add_user remove_user"),
    (18, 0): ("image_block_size image_transferred_blocks_status image_first_not_transferred_block_number image_transfer_enabled image_transfer_status "
              "image_to_activate_info", "image_transfer_initiate image_block_transfer image_verify image_activate"),
    (20, 0): ("calendar_name_active season_profile_active week_profile_table_active day_profile_table_active calendar_name_passive season_profile_passive "
              "week_profile_table_passive day_profile_table_passive activate_passive_calendar_time", "activate_passive_calendar"),
    (21, 0): ("thresholds monitored_value actions", ""),
    (22, 0): ("executed_script type execution_time", ""),
    (23, 1): ("comm_speed windows_size_transmit|window_size_transmit windows_size_receive|window_size_receive max_info_field_length_transmit "
              "max_info_field_length_receive inter_octet_time_out inactivity_time_out device_address", ""),
    (27, 0): ("comm_speed initialization_string modem_profile", ""),
    (27, 1): ("comm_speed initialization_string modem_profile", ""),
    (40, 2): ("push_object_list send_destination_and_method communication_window randomisation_start_interval number_of_retries repetition_delay port_reference "
              "push_client_SAP push_protection_parameters push_operation_method confirmation_parameters last_confirmation_date_time", "push reset"),
    (41, 0): ("TCP_UDP_port IP_reference MMS|MSS nb_of_sim_conn inactivity_time_out", ""),
    (42, 0): ("DL_reference IP_address multicast_IP_address IP_options subnet_mask gateway_IP_address use_DHCP_flag primary_DNS_address secondary_DNS_address",
              "add_mc_IP_address delete_mc_IP_address get_nbof_mc_IP_addresses"),
    (45, 0): ("APN PIN_code quality_of_service", ""),
    (47, 0): ("operator status cs_attachment ps_status cell_info adjacent_cell|adjacent_cells capture_time", ""),
    (47, 1): ("operator status cs_attachment ps_status cell_info adjacent_cell|adjacent_cells capture_time", ""),
    (64, 0): ("security_policy security_suite client_system_title server_system_title", "security_activate global_key_transfer"),
    (64, 1): ("security_policy security_suite client_system_title server_system_title certificates",
              "security_activate key_transfer|global_key_transfer key_agreement generate_key_pair generate_certificate_request import_certificate export_certificate "
              "remove_certificate"),
    (68, 0): ("actions permission_table|permissions_table weightings_table most_recent_requests_table|most_recent_request_table last_outcome", "request_action reset"),
    (70, 0): ("output_state control_state control_mode", "remote_disconnect remote_reconnect"),
    (71, 0): ("monitored_value threshold_active threshold_normal threshold_emergency min_over_threshold_duration min_under_threshold_duration emergency_profile "
              "emergency_profile_group_id_list emergency_profile_active actions", ""),
    (100, 0): ("activated server_address server_port authentication_method authentication_keys client_key", "synchronize add_authentication_key delete_authentication_key"),
}
STANDARD = {k: tuple([n.split("|") for n in t.split()] for t in v) for k, v in STANDARD.items()}

WITNESS = '''
from DLMS_SPODES.cosem_interface_classes import collection
from DLMS_SPODES.cosem_interface_classes.cosem_interface_class import COSEMInterfaceClasses, Classifier
from DLMS_SPODES.types import cdt, ut, cst


NOW = bytes([0x19, 7, 229, 1, 1, 255, 0, 0, 0, 0, 0, 0, 0])


class Mark:
    def __init__(self, n):
        self.n = n


def made(cls, n):
    o = cls(b"\\x09\\x06\\x00\\x00\\x60\\x01\\x00\\xff")
    marks = [Mark(i) for i in range(1, n + 1)]
    for i in range(1, n + 1):
        o.set_attr_force(i, marks[i - 1])
    return o, marks


def number(v):
    return int(v)


def names(cls):
    return tuple(el.NAME for el in cls.A_ELEMENTS), tuple(el.NAME for el in cls.M_ELEMENTS)


def attributes(cls, n):
    o, marks = made(cls, n)
    same(o.get_attr_length(), n, "number of attributes")
    for i in range(1, n + 1):
        need(o.get_attr(i) is marks[i - 1], "attribute %d is reached by its number" % i)
        need(o[i] is marks[i - 1], "attribute %d is reached by subscription" % i)
    need(cls.get_attr_element(1).NAME == "logical_name", "element 1 is the logical name")
    for i in range(2, n + 1):
        need(cls.get_attr_element(i) is cls.A_ELEMENTS[i - 2], "element %d is the declared one" % i)
    pairs = [(i, v) for i, v in o.get_index_with_attributes()]
    same(sorted(i for i, v in pairs), list(range(1, n + 1)), "numbers of the attributes")
    for i, v in pairs:
        need(v is marks[i - 1], "attribute %d is listed with its number" % i)


def methods(cls, m):
    o = cls(b"\\x09\\x06\\x00\\x00\\x60\\x01\\x00\\xff")
    for i in range(1, m + 1):
        need(cls.get_meth_element(i) is cls.M_ELEMENTS[i - 1], "method element %d is the declared one" % i)
        need(isinstance(o.get_meth(i), cls.M_ELEMENTS[i - 1].DATA_TYPE), "method %d has the declared type" % i)
    same([i for i, v in o.it_index_with_meth], list(range(1, m + 1)), "numbers of the methods")
    for i, v in o.it_index_with_meth:
        need(v is o.get_meth(i), "method %d is listed with its number" % i)


def no_attribute(cls, n, i):
    o, marks = made(cls, n)
    refuse("attribute %d of %d" % (i, n), o.get_attr, i)
    refuse("element %d of %d" % (i, n), cls.get_attr_element, i)
    refuse("assignment of attribute %d of %d" % (i, n), o.set_attr, i, b"")
    refuse("forced value of attribute %d of %d" % (i, n), o.set_attr_force, i, b"")
    refuse("link of attribute %d of %d" % (i, n), o.set_attr_link, i, marks[0])
    refuse("clearing attribute %d of %d" % (i, n), o.clear_attr, i)
    refuse("reset of attribute %d of %d" % (i, n), o.reset_attribute, i)
    refuse("type of attribute %d of %d" % (i, n), o.get_attr_data_type, i)
    refuse("record time of attribute %d of %d" % (i, n), o.get_record_time, i)
    refuse("record time for attribute %d of %d" % (i, n), o.set_record_time, i, NOW)
    for j in range(n):
        need(o.get_attr(j + 1) is marks[j], "attribute %d keeps its value" % (j + 1))


def no_method(cls, m, i):
    o = cls(b"\\x09\\x06\\x00\\x00\\x60\\x01\\x00\\xff")
    refuse("method %d of %d" % (i, m), o.get_meth, i)
    refuse("method element %d of %d" % (i, m), cls.get_meth_element, i)


def no_attribute_of(cls, n, i):
    o, marks = made(cls, n)
    refuse("attribute %d" % i, o.get_attr, i)
    refuse("element %d" % i, cls.get_attr_element, i)
    refuse("assignment of attribute %d" % i, o.set_attr, i, b"")
    for j in range(n):
        need(o.get_attr(j + 1) is marks[j], "attribute %d keeps its value" % (j + 1))


def assigned(k):
    from DLMS_SPODES.cosem_interface_classes.clock import Clock
    o = Clock(b"\\x09\\x06\\x00\\x00\\x01\\x00\\x00\\xff")
    for i in range(2, 10):
        o.clear_attr(i)
    values = {3: 60, 4: b"\\x11\\x05", 7: 30, 8: True, 9: 1}
    o.set_attr(k, values[k])
    for i in range(2, 10):
        if i == k:
            need(o.get_attr(i) is not None and o.get_attr(i).TAG == o.get_attr_element(i).DATA_TYPE.TAG, "attribute %d is assigned" % i)
        else:
            need(o.get_attr(i) is None, "attribute %d is not touched by an assignment of %d" % (i, k))
    v = o.get_attr(k)
    o.set_record_time(k, NOW)
    for i in range(2, 10):
        need((o.get_record_time(i) is not None) == (i == k), "record time of attribute %d" % i)
    o.clear_attr(k)
    need(o.get_attr(k) is None, "attribute %d is cleared" % k)


def accessor(cls, n, name, kind, want):
    o, marks = made(cls, n)
    got = getattr(o, name)
    if kind == "attribute":
        for i in range(1, n + 1):
            if i != want:
                need(got is not marks[i - 1], "%s gives attribute %d, declared with number %d" % (name, i, want))
        need(got is marks[want - 1], "%s gives attribute %d" % (name, want))
    else:
        for i in range(1, len(cls.M_ELEMENTS) + 1):
            if i != want:
                need(got is not o.get_meth(i), "%s gives method %d, declared with number %d" % (name, i, want))
        need(got is o.get_meth(want), "%s gives method %d" % (name, want))


def unnamed(cls, n, name):
    o, marks = made(cls, n)
    r = outcome(getattr, o, name)
    if r[0] == "ok":
        for i in range(1, n + 1):
            need(r[1] is not marks[i - 1], "%s gives attribute %d, which is declared as %s" % (name, i, cls.get_attr_element(i).NAME))
        for i in range(1, len(cls.M_ELEMENTS) + 1):
            need(r[1] is not o.get_meth(i), "%s gives method %d, which is declared as %s" % (name, i, cls.get_meth_element(i).NAME))


def descriptors(cls, n, m):
    o = cls(b"\\x09\\x06\\x00\\x00\\x60\\x01\\x00\\xff")
    for i in range(1, n + 1):
        d = o.get_attr_descriptor(i)
        same(d.contents, o.CLASS_ID.contents + b"\\x00\\x00\\x60\\x01\\x00\\xff" + bytes([i]), "descriptor of attribute %d" % i)
        same(o.get_attribute_descriptor(i), d.contents, "octets of the descriptor of attribute %d" % i)
    for i in range(1, m + 1):
        d = o.get_meth_descriptor(i)
        same(d.contents, o.CLASS_ID.contents + b"\\x00\\x00\\x60\\x01\\x00\\xff" + bytes([i]), "descriptor of method %d" % i)
'''


def interface_classes(ck):
    base = ck.anchor("cosem_interface_classes.cosem_interface_class", "COSEMInterfaceClasses")
    return base, [c for c in rules_types.subclasses(ck, base) if not c.module.name.startswith("client_program")]


def norm(n):
    return n.lower().rstrip("_").replace("_", "")


def is_property(v):
    return type(v).__name__ == "Prop"


def supported(ck, c):
    """interface classes that declare attributes; the others are declared as not supported and cannot be made"""
    v = ck.I.attempt(lambda: ck.I.getattr(c, "A_ELEMENTS"))
    return v[0] == "ok" and isinstance(v[1], tuple)


def check_C23(ck):
    I = ck.I
    w = ck.witness(WITNESS)
    base, classes = interface_classes(ck)
    many = {}
    for c in classes:
        if not supported(ck, c):
            continue
        q = rules_types.qual(I, c).replace("cosem_interface_classes.", "")
        cid = I.attempt(lambda: I.call(w.d["number"], [I.getattr(c, "CLASS_ID")], {}))
        ver = I.attempt(lambda: I.call(w.d["number"], [I.getattr(c, "VERSION")], {}))
        nm = I.attempt(lambda: I.call(w.d["names"], [c], {}))
        if "raise" in (cid[0], ver[0], nm[0]):
            ck.fact("declaration", q, None, "class identifier, version or names cannot be read", c)
            continue
        key = (cid[1], ver[1])
        an, mn = [I.plain(x) for x in nm[1][0]], [I.plain(x) for x in nm[1][1]]
        std = STANDARD.get(key)
        ck.fact("declaration", "%s is a standard class" % q, std is not None, "class identifier %s version %s is not in the table of standard classes" % key, c)
        if std is None:
            continue
        for what, got, want, first in (("attribute", an, std[0], 2), ("method", mn, std[1], 1)):
            ck.fact("declaration", "%s declares no more than the standard's %ss" % (q, what), len(got) <= len(want), "%d %ss declared, the standard has %d" % (
                len(got), what, len(want)), c)
            for i, (g, s) in enumerate(zip(got, want)):
                ck.fact("declaration", "%s %s %d" % (q, what, i + first), norm(g) in map(norm, s), "%s %d is %s, the standard says %s" % (what, i + first, g, s[0]), c)
        n, m = len(an) + 1, len(mn)
        # classes that add nothing to a class already analysed share its declarations
        own = tuple(id(x) for x in c.mro if x is not base and isinstance(x, ClassVal) and any(k in x.d for k in ("__init__", "get_attr", "characteristics_init", "get_index_with_attributes"))
                    or isinstance(x, ClassVal) and x is not base and any(is_property(v) for v in x.d.values()))
        sig = (key, own)
        if sig in many and not ck.thorough:
            continue
        many[sig] = c
        ck.claim("attribute-number", q, w, "attributes", lambda I, c=c, n=n: (c, n), where=c)
        if m:
            ck.claim("method-number", q, w, "methods", lambda I, c=c, m=m: (c, m), where=c)
        props = {}
        elements = {norm(a) for part in (std[0][:len(an)], std[1][:m]) for s in part for a in s}
        for x in reversed([x for x in c.mro if x is not base and isinstance(x, ClassVal)]):
            for k, v in x.d.items():
                if is_property(v) or norm(k) in elements:
                    props[k] = v
        for name in sorted(props):
            ai = [i + 2 for i, s in enumerate(std[0][:len(an)]) if norm(name) in map(norm, s)]
            mi = [i + 1 for i, s in enumerate(std[1][:m]) if norm(name) in map(norm, s)]
            if ai:
                ck.claim("accessor", "%s.%s" % (q, name), w, "accessor", lambda I, c=c, n=n, name=name, k=ai[0]: (c, n, name, "attribute", k), where=c)
            elif mi:
                ck.claim("accessor", "%s.%s" % (q, name), w, "accessor", lambda I, c=c, n=n, name=name, k=mi[0]: (c, n, name, "method", k), where=c)
            else:
                ck.claim("accessor", "%s.%s is no other name of an element" % (q, name), w, "unnamed", lambda I, c=c, n=n, name=name: (c, n, name), where=c)
    # numbers outside the declared range: the code is the base class's, decided on classes of several sizes
    for mod, name, n, m in (("clock", "Clock", 9, 6), ("data", "Data", 2, 0), ("special_days_table", "SpecialDaysTable", 2, 2),
                            ("association_ln.ver0", "AssociationLN", 8, 4), ("activity_calendar", "ActivityCalendar", 10, 1)):
        c = ck.anchor("cosem_interface_classes." + mod, name)
        near = [-n - m - 3, -n - 2, -n - 1, -n, -3, -2, -1, 0, n + 1, n + 2, n + 10, 255]
        ck.claim("outside", "attribute numbers around 1..%d of %s" % (n, name), w, "no_attribute", lambda I, c=c, n=n, s=near: (c, n, I.in_choice("number", s)), where=c)
        near = [-m - 3, -m - 2, -m - 1, -m, -2, -1, 0, m + 1, m + 2, 20, 255] if m else [-1, 0, 1, 2]
        ck.claim("outside", "method numbers around 1..%d of %s" % (m, name), w, "no_method", lambda I, c=c, m=m, s=near: (c, m, I.in_choice("number", s)), where=c)
    clock = ck.anchor("cosem_interface_classes.clock", "Clock")
    for lo, hi in ((None, 0), (10, None)):
        ck.claim("outside", "attribute numbers %s of Clock" % ("above 9" if lo else "below 1"), w, "no_attribute_of", lambda I, lo=lo, hi=hi: (clock, 9, I.in_int("number", lo, hi)),
                 where=clock)
        ck.claim("outside", "method numbers %s of Clock" % ("above 6" if lo else "below 1"), w, "no_method", lambda I, lo=lo, hi=hi: (clock, 6, I.in_int("number", lo and 7, hi)),
                 where=clock)
    for k in (3, 4, 7, 8, 9):
        ck.claim("assignment", "attribute %d of Clock" % k, w, "assigned", lambda I, k=k: (k,), where=clock)
    ck.claim("descriptor", "numbers of Clock", w, "descriptors", lambda I: (clock, 9, 6), where=clock)
