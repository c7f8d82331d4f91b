// Stand-in for pboettch/json-schema-validator, which is absent in this sandbox
// (empty submodule).  A small, real draft-7 validator that covers the keywords
// grazer's schema builders emit.  It exists so that /repo's own
// schema_validation.cpp is compiled and executed by the simulator.
#pragma once
#include <cmath>
#include <nlohmann/json.hpp>
#include <regex>
#include <stdexcept>
#include <string>

namespace nlohmann {
  namespace json_schema {

    class error_handler {
    public:
      virtual ~error_handler() = default;
      virtual void error(
          json::json_pointer const &ptr, json const &instance,
          std::string const &message)
          = 0;
    };

    class basic_error_handler : public error_handler {
      bool error_{false};

    public:
      void error(json::json_pointer const &, json const &, std::string const &)
          override {
        error_ = true;
      }
      virtual void reset() { error_ = false; }
      operator bool() const { return error_; }
    };

    class throwing_error_handler : public error_handler {
      void error(
          json::json_pointer const &ptr, json const &instance,
          std::string const &message) override {
        throw std::invalid_argument(
            std::string("At ") + ptr.to_string() + " of " + instance.dump()
            + " - " + message + "\n");
      }
    };

    class json_validator {
      json root_;
      bool set_{false};

      static bool type_ok(std::string const &t, json const &v) {
        if (t == "object")
          return v.is_object();
        if (t == "array")
          return v.is_array();
        if (t == "string")
          return v.is_string();
        if (t == "boolean")
          return v.is_boolean();
        if (t == "null")
          return v.is_null();
        if (t == "number")
          return v.is_number();
        if (t == "integer")
          return v.is_number_integer()
                 or (v.is_number_float()
                     and std::floor(v.get<double>()) == v.get<double>());
        throw std::invalid_argument("unknown type keyword: " + t);
      }

      bool matches(json const &schema, json const &v, json::json_pointer const &p)
          const {
        basic_error_handler h;
        check(schema, v, p, h);
        return not h;
      }

      void check(
          json const &schema, json const &v, json::json_pointer const &p,
          error_handler &e) const {
        if (schema.is_boolean()) {
          if (not schema.get<bool>())
            e.error(p, v, "instance invalid as per false-schema");
          return;
        }
        if (not schema.is_object())
          return;
        if (schema.contains("$ref")) {
          auto ref = schema["$ref"].get<std::string>();
          if (ref.empty() or ref[0] != '#')
            throw std::invalid_argument("unresolved reference " + ref);
          check(root_.at(json::json_pointer(ref.substr(1))), v, p, e);
          return;
        }
        if (schema.contains("type")) {
          auto const &t = schema["type"];
          bool ok = false;
          if (t.is_string()) {
            ok = type_ok(t.get<std::string>(), v);
          } else {
            for (auto const &one : t)
              ok = ok or type_ok(one.get<std::string>(), v);
          }
          if (not ok) {
            e.error(p, v, "unexpected instance type");
            return;
          }
        }
        if (schema.contains("enum")) {
          bool ok = false;
          for (auto const &c : schema["enum"])
            ok = ok or c == v;
          if (not ok)
            e.error(p, v, "instance not found in required enum");
        }
        if (schema.contains("const") and not(schema["const"] == v))
          e.error(p, v, "instance not const");
        if (schema.contains("allOf"))
          for (auto const &s : schema["allOf"])
            if (not matches(s, v, p))
              e.error(p, v, "at least one subschema has failed, but all of "
                            "them are required to validate");
        if (schema.contains("anyOf")) {
          bool ok = false;
          for (auto const &s : schema["anyOf"])
            ok = ok or matches(s, v, p);
          if (not ok)
            e.error(p, v, "no subschema has succeeded, but one of them is "
                          "required to validate");
        }
        if (schema.contains("oneOf")) {
          int n = 0;
          for (auto const &s : schema["oneOf"])
            n += matches(s, v, p) ? 1 : 0;
          if (n != 1)
            e.error(p, v, "not exactly one subschema has succeeded");
        }
        if (schema.contains("not") and matches(schema["not"], v, p))
          e.error(p, v, "the subschema has succeeded, but it is required to "
                        "not validate");
        if (v.is_number()) {
          double d = v.get<double>();
          if (schema.contains("minimum") and d < schema["minimum"].get<double>())
            e.error(p, v, "instance is below minimum");
          if (schema.contains("maximum") and d > schema["maximum"].get<double>())
            e.error(p, v, "instance exceeds maximum");
          if (schema.contains("exclusiveMinimum")
              and d <= schema["exclusiveMinimum"].get<double>())
            e.error(p, v, "instance is below or equals minimum");
          if (schema.contains("exclusiveMaximum")
              and d >= schema["exclusiveMaximum"].get<double>())
            e.error(p, v, "instance exceeds or equals maximum");
        }
        if (v.is_string()) {
          auto s = v.get<std::string>();
          if (schema.contains("minLength")
              and s.size() < schema["minLength"].get<std::size_t>())
            e.error(p, v, "instance is too short");
          if (schema.contains("maxLength")
              and s.size() > schema["maxLength"].get<std::size_t>())
            e.error(p, v, "instance is too long");
          if (schema.contains("pattern")
              and not std::regex_search(
                  s, std::regex(
                         schema["pattern"].get<std::string>(),
                         std::regex::ECMAScript)))
            e.error(p, v, "instance does not match regex pattern");
        }
        if (v.is_array()) {
          if (schema.contains("minItems")
              and v.size() < schema["minItems"].get<std::size_t>())
            e.error(p, v, "array has too few items");
          if (schema.contains("maxItems")
              and v.size() > schema["maxItems"].get<std::size_t>())
            e.error(p, v, "array has too many items");
          if (schema.contains("items")) {
            auto const &items = schema["items"];
            for (std::size_t i = 0; i != v.size(); ++i) {
              if (items.is_array()) {
                if (i < items.size())
                  check(items[i], v[i], p / i, e);
                else if (schema.contains("additionalItems"))
                  check(schema["additionalItems"], v[i], p / i, e);
              } else {
                check(items, v[i], p / i, e);
              }
            }
          }
          if (schema.contains("contains")) {
            bool ok = false;
            for (std::size_t i = 0; i != v.size() and not ok; ++i)
              ok = matches(schema["contains"], v[i], p / i);
            if (not ok)
              e.error(p, v, "array does not contain required element as per "
                            "'contains'");
          }
          if (schema.contains("uniqueItems")
              and schema["uniqueItems"].get<bool>()) {
            for (std::size_t i = 0; i != v.size(); ++i)
              for (std::size_t j = i + 1; j != v.size(); ++j)
                if (v[i] == v[j])
                  e.error(p, v, "items have to be unique for this array");
          }
        }
        if (v.is_object()) {
          if (schema.contains("required"))
            for (auto const &r : schema["required"])
              if (not v.contains(r.get<std::string>()))
                e.error(p, v, "required property '" + r.get<std::string>()
                                  + "' not found in object");
          if (schema.contains("minProperties")
              and v.size() < schema["minProperties"].get<std::size_t>())
            e.error(p, v, "too few properties");
          if (schema.contains("maxProperties")
              and v.size() > schema["maxProperties"].get<std::size_t>())
            e.error(p, v, "too many properties");
          for (auto const &[k, val] : v.items()) {
            bool seen = false;
            if (schema.contains("properties")
                and schema["properties"].contains(k)) {
              seen = true;
              check(schema["properties"][k], val, p / k, e);
            }
            if (schema.contains("patternProperties")) {
              for (auto const &[pat, sub] :
                   schema["patternProperties"].items()) {
                if (std::regex_search(k, std::regex(pat))) {
                  seen = true;
                  check(sub, val, p / k, e);
                }
              }
            }
            if (not seen and schema.contains("additionalProperties")) {
              auto const &ap = schema["additionalProperties"];
              if (ap.is_boolean() and not ap.get<bool>())
                e.error(p, v, "validation failed for additional property '" + k
                                  + "': instance invalid as per false-schema");
              else
                check(ap, val, p / k, e);
            }
          }
        }
      }

    public:
      json_validator() = default;
      explicit json_validator(json schema) { set_root_schema(schema); }

      void set_root_schema(json const &schema) {
        if (not schema.is_object() and not schema.is_boolean())
          throw std::invalid_argument(
              "invalid JSON-type for a schema, expected: boolean or object");
        root_ = schema;
        set_ = true;
      }
      void set_root_schema(json &&schema) { set_root_schema(std::as_const(schema)); }

      json validate(json const &instance) const {
        throwing_error_handler h;
        return validate(instance, h);
      }
      json validate(json const &instance, error_handler &e) const {
        if (not set_)
          throw std::invalid_argument("no root-schema given");
        check(root_, instance, json::json_pointer(), e);
        return json::array();
      }
    };
  } // namespace json_schema
} // namespace nlohmann
