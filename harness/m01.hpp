// What each part (translation unit) of the M01 programs can do; the parts include the headers of the library in different orders.
#pragma once
#include <functional>
#include <memory>
#include <string>
#include <utility>
#include <vector>

struct Part {
    std::string name;
    std::vector<std::string>* early = nullptr; // lines seen by the sink subscribed before main, if there is one
    std::function<std::size_t(std::vector<std::string>*)> subscribe;
    std::function<void(std::size_t)> unsubscribe;
    std::function<void(int)> level;
    std::function<void(int, std::string)> record; // 0 error .. 3 debug
    // functions whose type is erased: made here (the values they got go to the list), called here
    std::function<std::shared_ptr<void>(int, std::vector<std::string>*)> makeFunction;
    std::function<std::string(void*, int)> callFunction; // "ran", "refused"
    // applications
    std::function<std::shared_ptr<void>()> makeApplication;
    std::function<void(void*, std::string, std::vector<std::string>*)> registerFunction;
    std::function<void(void*, std::vector<std::string>*)> announce; // calls f("part", 7) at each announcement
    std::function<void(void*)> runOne;
    // plain results
    std::function<std::vector<std::string>(const std::string&)> results;
    // files: opened here, read here
    std::function<std::shared_ptr<void>(const std::string&)> openFile;
    std::function<std::string(void*)> readFile;
};
